package p08

import (
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

// verdict checks that the result of the reader is consistent, and that it is the expected one.
func verdict(res *mb.Result, valid bool) {
	nd.Reach("read")
	nd.Observe("crashed", res.Crashed)
	nd.Assert(!res.Crashed, "reading the model crashed")
	nd.Observe("accepted", res.Err == nil)
	nd.Assert((res.Err == nil) == (res.Model != nil), "there should be either an error or a model")
	nd.Assert((res.Err == nil) == (res.Reporter.Errors() == 0), "the result doesn't correspond to the reported errors")
	if valid {
		nd.Reach("valid")
		nd.Assert(res.Err == nil, "a valid model has been rejected")
	} else {
		nd.Reach("invalid")
		nd.Assert(res.Err != nil, "an invalid model has been accepted")
	}
}

func graph(n int, self bool, read func(m *mb.Model) *mb.Result) {
	label := []string{"Root", "A", "B", "C", "D"}
	v := &mb.Version{}
	edges := make([][]bool, n)
	for i := 0; i < n; i++ {
		r := &mb.Resource{Name: label[i]}
		edges[i] = make([]bool, n)
		for j := 0; j < n; j++ {
			if i == j && !self {
				continue
			}
			if nd.Bool("edge" + label[i] + label[j]) {
				edges[i][j] = true
				r.Locators = append(r.Locators, &mb.Locator{Name: "To" + label[j], Target: label[j]})
			}
		}
		v.Resources = append(v.Resources, r)
	}
	loop := false
	state := make([]int, n)
	var visit func(i int)
	visit = func(i int) {
		state[i] = 1
		for j := 0; j < n; j++ {
			if edges[i][j] {
				if state[j] == 1 {
					loop = true
				} else if state[j] == 0 {
					visit(j)
				}
			}
		}
		state[i] = 2
	}
	visit(0)
	verdict(read(mb.One(v)), !loop)
}

// A model whose locators form a loop that can be reached from the root isn't accepted, and loops are
// never seen where there are none, for all the graphs of locators.
func CheckLoops() {
	graph(nd.Bound("resources", 3, 4), true, func(m *mb.Model) *mb.Result { return m.Read() })
}

// The same, for longer loops, without locators that target their own resource.
func CheckLongLoops() {
	graph(4, false, func(m *mb.Model) *mb.Result { return m.Read() })
}

// The same, for a model that is read from its source.
func CheckLoopsText() {
	graph(2, true, func(m *mb.Model) *mb.Result { return m.ReadText() })
}

