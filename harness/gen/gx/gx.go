// Package gx contains the description of the attributes of the 'Cluster' class of the corpus.
package gx

import (
	"math"
	"time"

	v1 "verifgen/api/clustersmgmt/v1"
	"verifgen/zzverif/nd"
)

// Vals are the values assigned to the attributes.
type Vals struct {
	B  bool
	I  int
	L  int64
	F  float64
	S  string
	T  time.Time
	E  v1.State
	B2 bool
	I2 int
	L2 int64
	F2 float64
	S2 string
	T2 time.Time
	E2 v1.State
	X  interface{}
	N  int // number of elements of lists and maps
}

// Attr describes an attribute.
type Attr struct {
	Name string // JSON name
	Set  func(b *v1.ClusterBuilder, v *Vals)
	// Has tells if the attribute has a value according to the getter that returns the flag.
	Has func(o *v1.Cluster) bool
	// Same tells if both getters return the value.
	Same func(o *v1.Cluster, v *Vals) bool
	// Zero tells if both getters return the zero value.
	Zero func(o *v1.Cluster) bool
	// Group: scalar attributes, lists, maps, objects, links.
	Kind int
}

const (
	Scalar = iota
	List
	Map
	Object
	Link
)

func feq(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// Node builds a node from the values.
func Node(v *Vals) *v1.NodeBuilder { return v1.NewNode().Name(v.S).Cpus(v.I) }

// Node2 builds another node.
func Node2(v *Vals) *v1.NodeBuilder { return v1.NewNode().Cpus(v.I2) }

func sameNode(n *v1.Node, v *Vals) bool {
	name, ok1 := n.GetName()
	cpus, ok2 := n.GetCpus()
	return nd.And(ok1 && ok2, nd.And(name == v.S, cpus == v.I))
}

func sameNode2(n *v1.Node, v *Vals) bool {
	_, ok1 := n.GetName()
	cpus, ok2 := n.GetCpus()
	return nd.And(!ok1 && ok2, cpus == v.I2)
}

// Flavour builds an object with identity, that isn't a link, and Flavour2 builds a link.
func Flavour(v *Vals) *v1.FlavourBuilder { return v1.NewFlavour().ID(v.S).Size(v.I) }

// Flavour2 builds another one.
func Flavour2(v *Vals) *v1.FlavourBuilder { return v1.NewFlavour().Link(true).HREF(v.S2) }

func sameFlavour(f *v1.Flavour, v *Vals) bool {
	id, ok1 := f.GetID()
	_, ok2 := f.GetHREF()
	_, ok3 := f.GetName()
	size, ok4 := f.GetSize()
	return ok1 && !ok2 && !ok3 && ok4 && f.Kind() == v1.FlavourKind && nd.And(id == v.S, size == v.I)
}

func sameFlavour2(f *v1.Flavour, v *Vals) bool {
	_, ok1 := f.GetID()
	ref, ok2 := f.GetHREF()
	_, ok3 := f.GetName()
	_, ok4 := f.GetSize()
	return !ok1 && ok2 && !ok3 && !ok4 && f.Kind() == v1.FlavourLinkKind && ref == v.S2
}

func n(v *Vals, l int) bool { return l == v.N }

// Attrs is the list of attributes.
var Attrs = []*Attr{
	{Name: "managed",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Managed(v.B) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetManaged(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetManaged()
			return nd.And(x == v.B, o.Managed() == v.B)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetManaged(); return nd.And(nd.Not(x), nd.Not(o.Managed())) }},
	{Name: "replicas",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Replicas(v.I) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetReplicas(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetReplicas()
			return nd.And(x == v.I, o.Replicas() == v.I)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetReplicas(); return nd.And(x == 0, o.Replicas() == 0) }},
	{Name: "uptime",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Uptime(v.L) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetUptime(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetUptime()
			return nd.And(x == v.L, o.Uptime() == v.L)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetUptime(); return nd.And(x == 0, o.Uptime() == 0) }},
	{Name: "score",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Score(v.F) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetScore(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetScore()
			return nd.And(feq(x, v.F), feq(o.Score(), v.F))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetScore(); return nd.And(feq(x, 0), feq(o.Score(), 0)) }},
	{Name: "name",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Name(v.S) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetName(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetName()
			return nd.And(x == v.S, o.Name() == v.S)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetName(); return x == "" && o.Name() == "" }},
	{Name: "creation_timestamp",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.CreationTimestamp(v.T) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetCreationTimestamp(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetCreationTimestamp()
			return x.Equal(v.T) && o.CreationTimestamp().Equal(v.T)
		},
		Zero: func(o *v1.Cluster) bool {
			x, _ := o.GetCreationTimestamp()
			return x.IsZero() && o.CreationTimestamp().IsZero()
		}},
	{Name: "extra",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Extra(v.X) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetExtra(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetExtra()
			return x == v.X && o.Extra() == v.X
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetExtra(); return x == nil && o.Extra() == nil }},
	{Name: "state",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.State(v.E) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetState(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetState()
			return x == v.E && o.State() == v.E
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetState(); return x == "" && o.State() == "" }},
	{Name: "flags", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Flags([]bool{v.B, v.B2}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetFlags(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetFlags()
			return n(v, len(x)) && n(v, len(o.Flags())) && (v.N < 1 || x[0] == v.B && o.Flags()[0] == v.B) && (v.N < 2 || x[1] == v.B2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetFlags(); return x == nil && o.Flags() == nil }},
	{Name: "counts", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Counts([]int{v.I, v.I2}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetCounts(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetCounts()
			return n(v, len(x)) && n(v, len(o.Counts())) && (v.N < 1 || x[0] == v.I && o.Counts()[0] == v.I) && (v.N < 2 || x[1] == v.I2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetCounts(); return x == nil && o.Counts() == nil }},
	{Name: "bytes", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Bytes([]int64{v.L, v.L2}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetBytes(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetBytes()
			return n(v, len(x)) && n(v, len(o.Bytes())) && (v.N < 1 || x[0] == v.L && o.Bytes()[0] == v.L) && (v.N < 2 || x[1] == v.L2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetBytes(); return x == nil && o.Bytes() == nil }},
	{Name: "ratios", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Ratios([]float64{v.F, v.F2}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetRatios(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetRatios()
			return n(v, len(x)) && n(v, len(o.Ratios())) && (v.N < 1 || feq(x[0], v.F) && feq(o.Ratios()[0], v.F)) && (v.N < 2 || feq(x[1], v.F2))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetRatios(); return x == nil && o.Ratios() == nil }},
	{Name: "tags", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Tags([]string{v.S, v.S2}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetTags(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetTags()
			return n(v, len(x)) && n(v, len(o.Tags())) && (v.N < 1 || x[0] == v.S && o.Tags()[0] == v.S) && (v.N < 2 || x[1] == v.S2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetTags(); return x == nil && o.Tags() == nil }},
	{Name: "dates", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Dates([]time.Time{v.T, v.T2}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetDates(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetDates()
			return n(v, len(x)) && n(v, len(o.Dates())) && (v.N < 1 || x[0].Equal(v.T) && o.Dates()[0].Equal(v.T)) && (v.N < 2 || x[1].Equal(v.T2))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetDates(); return x == nil && o.Dates() == nil }},
	{Name: "extras", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Extras([]interface{}{v.X, true}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetExtras(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetExtras()
			return n(v, len(x)) && n(v, len(o.Extras())) && (v.N < 1 || x[0] == v.X && o.Extras()[0] == v.X) && (v.N < 2 || x[1] == true)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetExtras(); return x == nil && o.Extras() == nil }},
	{Name: "states", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.States([]v1.State{v.E, v.E2}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetStates(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetStates()
			return n(v, len(x)) && n(v, len(o.States())) && (v.N < 1 || x[0] == v.E && o.States()[0] == v.E) && (v.N < 2 || x[1] == v.E2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetStates(); return x == nil && o.States() == nil }},
	{Name: "labels", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]string{}
			if v.N > 0 {
				m["k"] = v.S
			}
			if v.N > 1 {
				m["j"] = v.S2
			}
			b.Labels(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetLabels(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetLabels()
			return n(v, len(x)) && n(v, len(o.Labels())) && x != nil && (v.N < 1 || x["k"] == v.S && o.Labels()["k"] == v.S) && (v.N < 2 || x["j"] == v.S2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetLabels(); return x == nil && o.Labels() == nil }},
	{Name: "limits", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]int{}
			if v.N > 0 {
				m["k"] = v.I
			}
			if v.N > 1 {
				m["j"] = v.I2
			}
			b.Limits(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetLimits(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetLimits()
			return n(v, len(x)) && n(v, len(o.Limits())) && x != nil && (v.N < 1 || x["k"] == v.I && o.Limits()["k"] == v.I) && (v.N < 2 || x["j"] == v.I2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetLimits(); return x == nil && o.Limits() == nil }},
	{Name: "nodes", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]*v1.NodeBuilder{}
			if v.N > 0 {
				m["k"] = Node(v)
			}
			if v.N > 1 {
				m["j"] = Node2(v)
			}
			b.Nodes(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetNodes(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetNodes()
			return n(v, len(x)) && n(v, len(o.Nodes())) && x != nil && (v.N < 1 || sameNode(x["k"], v) && sameNode(o.Nodes()["k"], v)) && (v.N < 2 || sameNode2(x["j"], v))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetNodes(); return x == nil && o.Nodes() == nil }},
	{Name: "switches", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]bool{}
			if v.N > 0 {
				m["k"] = v.B
			}
			if v.N > 1 {
				m["j"] = v.B2
			}
			b.Switches(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetSwitches(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetSwitches()
			return n(v, len(x)) && n(v, len(o.Switches())) && x != nil && (v.N < 1 || x["k"] == v.B && o.Switches()["k"] == v.B) && (v.N < 2 || x["j"] == v.B2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetSwitches(); return x == nil && o.Switches() == nil }},
	{Name: "sizes", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]int64{}
			if v.N > 0 {
				m["k"] = v.L
			}
			if v.N > 1 {
				m["j"] = v.L2
			}
			b.Sizes(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetSizes(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetSizes()
			return n(v, len(x)) && n(v, len(o.Sizes())) && x != nil && (v.N < 1 || x["k"] == v.L && o.Sizes()["k"] == v.L) && (v.N < 2 || x["j"] == v.L2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetSizes(); return x == nil && o.Sizes() == nil }},
	{Name: "weights", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]float64{}
			if v.N > 0 {
				m["k"] = v.F
			}
			if v.N > 1 {
				m["j"] = v.F2
			}
			b.Weights(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetWeights(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetWeights()
			return n(v, len(x)) && n(v, len(o.Weights())) && x != nil && (v.N < 1 || feq(x["k"], v.F) && feq(o.Weights()["k"], v.F)) && (v.N < 2 || feq(x["j"], v.F2))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetWeights(); return x == nil && o.Weights() == nil }},
	{Name: "moments", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]time.Time{}
			if v.N > 0 {
				m["k"] = v.T
			}
			if v.N > 1 {
				m["j"] = v.T2
			}
			b.Moments(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetMoments(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetMoments()
			return n(v, len(x)) && n(v, len(o.Moments())) && x != nil && (v.N < 1 || x["k"].Equal(v.T) && o.Moments()["k"].Equal(v.T)) && (v.N < 2 || x["j"].Equal(v.T2))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetMoments(); return x == nil && o.Moments() == nil }},
	{Name: "things", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]interface{}{}
			if v.N > 0 {
				m["k"] = v.X
			}
			if v.N > 1 {
				m["j"] = true
			}
			b.Things(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetThings(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetThings()
			return n(v, len(x)) && n(v, len(o.Things())) && x != nil && (v.N < 1 || x["k"] == v.X && o.Things()["k"] == v.X) && (v.N < 2 || x["j"] == true)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetThings(); return x == nil && o.Things() == nil }},
	{Name: "modes", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]v1.State{}
			if v.N > 0 {
				m["k"] = v.E
			}
			if v.N > 1 {
				m["j"] = v.E2
			}
			b.Modes(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetModes(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetModes()
			return n(v, len(x)) && n(v, len(o.Modes())) && x != nil && (v.N < 1 || x["k"] == v.E && o.Modes()["k"] == v.E) && (v.N < 2 || x["j"] == v.E2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetModes(); return x == nil && o.Modes() == nil }},
	{Name: "flavours", Kind: Map,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			m := map[string]*v1.FlavourBuilder{}
			if v.N > 0 {
				m["k"] = Flavour(v)
			}
			if v.N > 1 {
				m["j"] = Flavour2(v)
			}
			b.Flavours(m)
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetFlavours(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetFlavours()
			return n(v, len(x)) && n(v, len(o.Flavours())) && x != nil && (v.N < 1 || sameFlavour(x["k"], v) && sameFlavour(o.Flavours()["k"], v)) && (v.N < 2 || sameFlavour2(x["j"], v))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetFlavours(); return x == nil && o.Flavours() == nil }},
	{Name: "boss", Kind: Object,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Boss(Flavour(v)) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetBoss(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetBoss()
			return sameFlavour(x, v) && sameFlavour(o.Boss(), v)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetBoss(); return x == nil && o.Boss() == nil }},
	{Name: "crew", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Crew([]*v1.FlavourBuilder{Flavour(v), Flavour2(v)}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetCrew(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetCrew()
			return n(v, len(x)) && n(v, len(o.Crew())) && (v.N < 1 || sameFlavour(x[0], v) && sameFlavour(o.Crew()[0], v)) && (v.N < 2 || sameFlavour2(x[1], v))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetCrew(); return x == nil && o.Crew() == nil }},
	{Name: "primary", Kind: Object,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Primary(Node(v)) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetPrimary(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetPrimary()
			return nd.And(sameNode(x, v), sameNode(o.Primary(), v))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetPrimary(); return x == nil && o.Primary() == nil }},
	{Name: "spares", Kind: List,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Spares([]*v1.NodeBuilder{Node(v), Node2(v)}[0:v.N]...) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetSpares(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetSpares()
			return n(v, len(x)) && n(v, len(o.Spares())) && (v.N < 1 || sameNode(x[0], v) && sameNode(o.Spares()[0], v)) && (v.N < 2 || sameNode2(x[1], v))
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetSpares(); return x == nil && o.Spares() == nil }},
	{Name: "flavour", Kind: Link,
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.Flavour(v1.NewFlavour().ID(v.S).Size(v.I)) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetFlavour(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetFlavour()
			_, named := x.GetName()
			return !named && x.Size() == v.I && x.ID() == v.S && o.Flavour().ID() == v.S
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetFlavour(); return x == nil && o.Flavour() == nil }},
	{Name: "groups", Kind: Link,
		Set: func(b *v1.ClusterBuilder, v *Vals) {
			b.Groups(v1.NewGroupList().Items([]*v1.GroupBuilder{v1.NewGroup().ID(v.S), v1.NewGroup().Name(v.S2)}[0:v.N]...))
		},
		Has: func(o *v1.Cluster) bool { _, ok := o.GetGroups(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetGroups()
			return n(v, x.Len()) && n(v, o.Groups().Len()) && (v.N < 1 || x.Get(0).ID() == v.S && o.Groups().Get(0).ID() == v.S) && (v.N < 2 || x.Get(1).Name() == v.S2)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetGroups(); return x == nil && o.Groups() == nil }},
	{Name: "renamed-json",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.GoRenamed(v.S) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetGoRenamed(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetGoRenamed()
			return nd.And(x == v.S, o.GoRenamed() == v.S)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetGoRenamed(); return x == "" && o.GoRenamed() == "" }},
	{Name: "apiurl",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.APIURL(v.S) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetAPIURL(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetAPIURL()
			return nd.And(x == v.S, o.APIURL() == v.S)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetAPIURL(); return x == "" && o.APIURL() == "" }},
	{Name: "id",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.ID(v.S) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetID(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetID()
			return nd.And(x == v.S, o.ID() == v.S)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetID(); return x == "" && o.ID() == "" }},
	{Name: "href",
		Set: func(b *v1.ClusterBuilder, v *Vals) { b.HREF(v.S) },
		Has: func(o *v1.Cluster) bool { _, ok := o.GetHREF(); return ok },
		Same: func(o *v1.Cluster, v *Vals) bool {
			x, _ := o.GetHREF()
			return nd.And(x == v.S, o.HREF() == v.S)
		},
		Zero: func(o *v1.Cluster) bool { x, _ := o.GetHREF(); return x == "" && o.HREF() == "" }},
}

// States are the values of the enumerated type.
var States = []v1.State{v1.StateReady, v1.StateNotReady, v1.StateUnknown}

// Values creates arbitrary values.
func Values(label string, chars string) *Vals {
	v := &Vals{
		B: nd.Bool(label + "B"), I: nd.Int(label + "I"), L: nd.Int64(label + "L"), F: nd.Float64(label + "F"),
		S:  nd.StringOf(label+"S", 2, 2, chars),
		B2: nd.Bool(label + "B2"), I2: nd.Int(label + "I2"), L2: nd.Int64(label + "L2"), F2: nd.Float64(label + "F2"),
		S2: nd.StringOf(label+"S2", 1, 1, chars),
		T:  time.Unix(1600000000, 0).UTC(), T2: time.Unix(-3600, 0).UTC(),
		E: States[1], E2: States[0],
		N: 2,
	}
	v.X = "x"
	return v
}

// Numbers creates values where only the booleans and the numbers are arbitrary.
func Numbers(label string) *Vals {
	v := &Vals{
		B: nd.Bool(label + "B"), I: nd.Int(label + "I"), L: nd.Int64(label + "L"), F: 1.5, S: label + "\"",
		B2: nd.Bool(label + "B2"), I2: nd.Int(label + "I2"), L2: nd.Int64(label + "L2"), F2: -1e300, S2: "",
		T: time.Unix(1600000000, 0).UTC(), T2: time.Unix(-3600, 0).UTC(),
		E: States[1], E2: States[0],
		N: 2,
	}
	v.X = label
	return v
}

// Fixed creates concrete values.
func Fixed(label string) *Vals {
	return &Vals{
		B: true, I: 42, L: -7, F: 1.5, S: label + "\"", I2: 3, L2: 1 << 40, F2: 0.25, S2: "",
		T: time.Unix(1600000000, 0).UTC(), T2: time.Unix(-3600, 0).UTC(),
		E: States[1], E2: States[0], X: label, N: 2,
	}
}
