package p06

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

func digit(i int) string { return string(rune('0' + i)) }

type edge struct {
	on   bool
	from int
	to   int
	loc  *concepts.Locator
}

func key(p []*concepts.Locator) string {
	s := ""
	for _, l := range p {
		s += l.Name().String() + "/"
	}
	return s
}

// graph creates a version with an arbitrary graph of resources without loops.
func graph(n, parallel int) (*concepts.Version, []*edge) {
	v := concepts.NewVersion()
	v.SetName(names.ParseUsingSeparator("v1", "_"))
	var rs []*concepts.Resource
	for i := 0; i < n; i++ {
		r := concepts.NewResource()
		if i == 0 {
			r.SetName(names.ParseUsingCase("Root"))
		} else {
			r.SetName(names.ParseUsingCase("R" + digit(i)))
		}
		v.AddResource(r)
		rs = append(rs, r)
	}
	var es []*edge
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := 0; k < parallel; k++ {
				e := &edge{from: i, to: j, on: nd.Bool("e" + digit(i) + digit(j) + digit(k))}
				if e.on {
					l := concepts.NewLocator()
					l.SetName(names.ParseUsingCase("L" + digit(i) + digit(j) + digit(k)))
					l.SetTarget(rs[j])
					if nd.Bool("v" + digit(i) + digit(j) + digit(k)) {
						l.SetVariable(true)
					}
					rs[i].AddLocator(l)
					e.loc = l
				}
				es = append(es, e)
			}
		}
	}
	return v, es
}

// count counts the paths that start in a node.
func count(es []*edge, node int) int {
	n := 0
	for _, e := range es {
		if e.on && e.from == node {
			n += 1 + count(es, e.to)
		}
	}
	return n
}

// The paths of a version are all the chains of locators that start in the root resource, each of them
// exactly once, and independent of each other.
func CheckPaths() {
	v, es := graph(nd.Bound("resources", 5, 5), 1)
	check(v, es)
}

// The same when there are multiple locators with the same target.
func CheckParallelPaths() {
	v, es := graph(nd.Bound("resources", 3, 4), 2)
	check(v, es)
}

// The same for long chains: each resource has up to two locators for the next one, and perhaps another for
// the one that follows.
//verif:steps=20000000
func CheckChains() {
	n := nd.Bound("length", 6, 7)
	v := concepts.NewVersion()
	v.SetName(names.ParseUsingSeparator("v1", "_"))
	var rs []*concepts.Resource
	for i := 0; i < n; i++ {
		r := concepts.NewResource()
		r.SetName(names.ParseUsingCase("R" + digit(i)))
		if i == 0 {
			r.SetName(names.ParseUsingCase("Root"))
		}
		v.AddResource(r)
		rs = append(rs, r)
	}
	var es []*edge
	add := func(i, j int, k int) {
		l := concepts.NewLocator()
		l.SetName(names.ParseUsingCase("L" + digit(i) + digit(j) + digit(k)))
		l.SetTarget(rs[j])
		rs[i].AddLocator(l)
		es = append(es, &edge{on: true, from: i, to: j, loc: l})
	}
	for i := 0; i+1 < n; i++ {
		for k, c := 0, nd.Choose("parallel", 3); k < c; k++ {
			add(i, i+1, k)
		}
		if i+2 < n && nd.Bool("skip") {
			add(i, i+2, 0)
		}
	}
	check(v, es)
}

func check(v *concepts.Version, es []*edge) {
	paths := v.Paths()
	nd.Observe("paths", len(paths))
	nd.Reach("enumerated")
	seen := map[string]bool{}
	var keys []string
	for _, p := range paths {
		nd.Assert(len(p) > 0, "a path is empty")
		k := key(p)
		nd.Assert(!seen[k], "a path is repeated")
		seen[k] = true
		keys = append(keys, k)
		nd.Assert(p[0].Owner() == v.Root(), "a path doesn't start in the root resource")
		for i := 0; i+1 < len(p); i++ {
			nd.Assert(p[i].Target() == p[i+1].Owner(), "a path isn't a chain of locators")
		}
	}
	nd.Assert(len(paths) == count(es, 0), "wrong number of paths")
	// Changing or extending one of the results doesn't change the others:
	for i, p := range paths {
		_ = append(p, p[0])
		nd.Assert(key(p) == keys[i], "the paths share memory")
	}
	for i, p := range paths {
		saved := append([]*concepts.Locator{}, p...)
		for j := range p {
			p[j] = concepts.NewLocator()
			p[j].SetName(names.ParseUsingCase("Changed"))
		}
		for j, q := range paths {
			nd.Assert(i == j || key(q) == keys[j], "the paths share memory")
		}
		copy(p, saved)
	}
}
