package p02

import (
	"sort"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

func word(n string, max int) *names.Word {
	t := nd.StringOf(n, 0, max, chars)
	if nd.Bool(n + ".initialism") {
		return names.NewInitialism(t)
	}
	return names.NewWord(t)
}

func name(n string, maxWords, maxChars int) *names.Name {
	var ws []*names.Word
	k := nd.Choose(n+".words", maxWords+1)
	for i := 0; i < k; i++ {
		ws = append(ws, word(n+string(rune('0'+i)), maxChars))
	}
	return names.NewName(ws...)
}

func texts(n *names.Name) []string {
	var out []string
	for _, w := range n.Words() {
		out = append(out, w.String())
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i] == b[i])
	}
	return ok
}

// The order of two names is lexicographic by words: it is antisymmetric, and only names with the same
// words are equivalent.
func CheckCompare() {
	a := name("a", 2, nd.Bound("word", 2, 3))
	b := name("b", 2, nd.Bound("word", 2, 3))
	c := names.Compare(a, b)
	d := names.Compare(b, a)
	nd.Observe("compare", c)
	nd.Reach("compared")
	nd.Assert(nd.Or(c == 0, nd.Or(c == 1, c == -1)), "the result isn't -1, 0 or 1")
	nd.Assert(c == -d, "comparison isn't antisymmetric")
	nd.Assert(nd.Iff(c == 0, same(texts(a), texts(b))), "names are equivalent if and only if they have the same words")
	// Reference:
	want := 0
	x, y := texts(a), texts(b)
	for i := 0; i < len(x) && i < len(y) && want == 0; i++ {
		if x[i] < y[i] {
			want = -1
		} else if x[i] > y[i] {
			want = 1
		}
	}
	if want == 0 && len(x) < len(y) {
		want = -1
	}
	if want == 0 && len(x) > len(y) {
		want = 1
	}
	nd.Assert(c == want, "the order isn't lexicographic by words")
}

// The order is transitive, so sorting with it is well defined.
func CheckTransitive() {
	k := nd.Bound("words", 2, 3)
	a, b, c := name("a", k, 1), name("b", k, 1), name("c", k, 1)
	ab, bc, ac := names.Compare(a, b), names.Compare(b, c), names.Compare(a, c)
	nd.Reach("compared")
	nd.Assert(nd.Implies(nd.And(ab <= 0, bc <= 0), ac <= 0), "comparison isn't transitive")
	nd.Assert(nd.Implies(nd.And(ab <= 0, bc < 0), ac < 0), "comparison isn't strictly transitive")
}

// Equality of names is equality of their words, and is consistent with the order for names that come
// from identifiers.
func CheckEquals() {
	a, b := name("a", 2, 1), name("b", 2, 1)
	eq := a.Equals(b)
	nd.Observe("equals", eq)
	nd.Reach("compared")
	want := same(texts(a), texts(b))
	x, y := a.Words(), b.Words()
	for i := 0; i < len(x) && i < len(y); i++ {
		want = nd.And(want, x[i].Initialism() == y[i].Initialism())
	}
	nd.Assert(eq == want, "names are equal if and only if their words are equal")
	nd.Assert(a.Equals(a), "a name isn't equal to itself")
	nd.Assert(!a.Equals(nil), "a name is equal to nil")
	var none *names.Name
	nd.Assert(!none.Equals(a), "nil is equal to a name")
	nd.Assert(none.Equals(nil), "nil isn't equal to nil")
}

// Names of identifiers are equivalent if and only if they are equal.
func CheckParsedEquals() {
	max := nd.Bound("identifier", 4, 5)
	s, t := nd.StringOf("a", 1, max, "abyzABYZ019"), nd.StringOf("b", 1, max, "abyzABYZ019")
	a, b := names.ParseUsingCase(s), names.ParseUsingCase(t)
	nd.Reach("parsed")
	nd.Assert(nd.Iff(names.Compare(a, b) == 0, a.Equals(b)), "equality isn't consistent with the order")
	nd.Assert(nd.Implies(s == t, a.Equals(b)), "the same identifier gives different names")
}

// Concatenation and insertion keep all the words in order, and don't alter their operands.
func CheckCat() {
	a, b := name("a", 2, 1), name("b", 2, 1)
	wa, wb := texts(a), texts(b)
	want := append(append([]string{}, wa...), wb...)
	nd.Reach("built")
	nd.Assert(same(texts(names.Cat(a, b)), want), "concatenation doesn't have the words of its operands")
	nd.Assert(same(texts(names.Cat(a)), wa), "concatenation of one name isn't that name")
	nd.Assert(len(names.Cat().Words()) == 0, "concatenation of nothing isn't empty")
	nd.Assert(same(texts(a.Append(b.Words()...)), want), "appending doesn't add the words at the end")
	nd.Assert(same(texts(b.Insert(a.Words()...)), want), "inserting doesn't add the words at the beginning")
	first := a.Append(b.Words()...)
	a.Append(names.NewWord("x"), names.NewWord("y"))
	nd.Assert(same(texts(first), want), "appending twice to the same name alters the first result")
	nd.Assert(nd.And(same(texts(a), wa), same(texts(b), wb)), "the operands have been altered")
	ws := a.Words()
	for i := range ws {
		ws[i] = names.NewWord("changed")
	}
	nd.Assert(same(texts(a), wa), "the words of a name can be altered from outside")
	// The slices given by the caller can have room for more words, and can be reused:
	buffer := make([]*names.Word, 0, 8)
	for _, w := range wa {
		buffer = append(buffer, names.NewWord(w))
	}
	plain := names.NewName(buffer...)
	before := b.Insert(buffer...)
	after := b.Append(buffer...)
	names.NewName(names.NewWord("x"), names.NewWord("y")).Insert(buffer...)
	plain.Append(names.NewWord("z"))
	for i := range buffer {
		buffer[i] = names.NewWord("changed")
	}
	nd.Assert(same(texts(plain), wa), "changing the words given changes the name")
	nd.Assert(same(texts(before), want), "changing the words inserted changes the name")
	nd.Assert(same(texts(after), append(append([]string{}, wb...), wa...)), "changing the words appended changes the name")
}

// Sorting a list of names gives the same names in order.
func CheckSort() {
	n := nd.Bound("names", 4, 5)
	var l names.Names
	sum := 0
	for i := 0; i < n; i++ {
		x := name("n"+string(rune('0'+i)), 1, 1)
		for _, w := range x.Words() {
			for j := 0; j < len(w.String()); j++ {
				sum += int(w.String()[j])
			}
		}
		l = append(l, x)
	}
	orig := append(names.Names{}, l...)
	sort.Sort(l)
	nd.Reach("sorted")
	for i := 0; i+1 < len(l); i++ {
		nd.Assert(names.Compare(l[i], l[i+1]) <= 0, "the result isn't sorted")
	}
	for _, o := range orig {
		found := false
		for _, x := range l {
			if x == o {
				found = true
			}
		}
		nd.Assert(found, "a name has been lost")
	}
}

// Names with many words behave like the ones that have few: the words decide in order, and none is lost.
func CheckLong() {
	common := nd.Choose("common", nd.Bound("common", 12, 40))
	var ws, vs []*names.Word
	for i := 0; i < common; i++ {
		t := "word" + string(rune('a'+i%26))
		ws = append(ws, names.NewWord(t))
		vs = append(vs, names.NewWord(t))
	}
	a := names.NewName(append(ws, name("a", 1, 2).Words()...)...)
	b := names.NewName(append(vs, name("b", 1, 2).Words()...)...)
	wa, wb := texts(a), texts(b)
	c := names.Compare(a, b)
	nd.Reach("compared")
	nd.Assert(nd.Iff(c == 0, same(wa, wb)), "only names with the same words are equivalent")
	nd.Assert(nd.And(nd.Iff(c < 0, names.Compare(b, a) > 0), nd.Iff(c > 0, names.Compare(b, a) < 0)), "the order isn't antisymmetric")
	if len(wa) < len(wb) {
		nd.Assert(c < 0, "a prefix isn't before the longer name")
	}
	if len(wa) == len(wb) && len(wa) > common {
		nd.Assert(nd.Implies(wa[common] < wb[common], c < 0), "the last word doesn't decide the order")
	}
	nd.Assert(nd.Implies(a.Equals(b), same(wa, wb)), "different names are equal")
	want := append(append([]string{}, wa...), wb...)
	nd.Assert(same(texts(names.Cat(a, b)), want) && same(texts(a.Append(b.Words()...)), want), "words have been lost")
	nd.Assert(same(texts(b.Insert(a.Words()...)), want), "words have been lost")
	nd.Assert(same(texts(names.Cat(a, b, a, b)), append(append([]string{}, want...), want...)), "words have been lost")
}
