package p22

import (
	"bytes"
	"math"
	"net/http"
	"net/url"
	"time"

	v1 "verifgen/api/clustersmgmt/v1"
	"verifgen/api/helpers"
	"verifgen/zzverif/nd"
)

// Values added to the query are read back, and only under their name.
func CheckRoundTrip() {
	nd.Opaque(true)
	var q url.Values
	if nd.Bool("before") {
		helpers.AddValue(&q, "other", "x")
	}
	name := nd.StringOf("name", 0, 1, "ab")
	kind := nd.Choose("kind", 5)
	switch kind {
	case 0:
		x := nd.Int("x")
		helpers.AddValue(&q, name, x)
		y, err := helpers.ParseInteger(q, name)
		nd.Assert(err == nil && y != nil && *y == x, "the integer has been changed")
		y, err = helpers.ParseInteger(q, name+"z")
		nd.Assert(err == nil && y == nil, "there is a value for other name")
	case 1:
		x := nd.Float64("x")
		nd.Assume(!math.IsNaN(x) && !math.IsInf(x, 0))
		helpers.AddValue(&q, name, x)
		y, err := helpers.ParseFloat(q, name)
		nd.Assert(err == nil && y != nil && *y == x, "the floating point number has been changed")
		y, err = helpers.ParseFloat(q, name+"z")
		nd.Assert(err == nil && y == nil, "there is a value for other name")
	case 2:
		x := nd.StringOf("x", 0, 2, "a &%\xff")
		helpers.AddValue(&q, name, x)
		y, err := helpers.ParseString(q, name)
		nd.Assert(err == nil && y != nil && *y == x, "the string has been changed")
		y, err = helpers.ParseString(q, name+"z")
		nd.Assert(err == nil && y == nil, "there is a value for other name")
	case 3:
		x := nd.Bool("x")
		helpers.AddValue(&q, name, x)
		y, err := helpers.ParseBoolean(q, name)
		nd.Assert(err == nil && y != nil && *y == x, "the boolean has been changed")
		y, err = helpers.ParseBoolean(q, name+"z")
		nd.Assert(err == nil && y == nil, "there is a value for other name")
	case 4:
		x := []time.Time{
			{}, time.Unix(0, 0), time.Unix(1600000000, 0).In(time.FixedZone("x", 3600*5+1800)), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Unix(1709164800, 0).In(time.FixedZone("x", -3600*11)),
		}[nd.Choose("x", 5)]
		helpers.AddValue(&q, name, x)
		y, err := helpers.ParseDate(q, name)
		nd.Assert(err == nil && y != nil && y.Equal(x), "the date has been changed")
		y, err = helpers.ParseDate(q, name+"z")
		nd.Assert(err == nil && y == nil, "there is a value for other name")
	}
	nd.Reach("parsed")
}

// Everything that is added to the query, or to the headers, is kept, in the order in which it has been added, even when it repeats a
// value.
func CheckSequence() {
	n := nd.Choose("values", nd.Bound("values", 5, 6))
	header := nd.Bool("header")
	var q url.Values
	var h http.Header
	want := map[string][]string{}
	for i := 0; i < n; i++ {
		name := []string{"A", "B"}[nd.Choose("name", 2)]
		value := nd.StringOf("value", 0, 1, "xy")
		if header {
			helpers.AddHeader(&h, name, value)
		} else {
			helpers.AddValue(&q, name, value)
		}
		want[name] = append(want[name], value)
	}
	nd.Reach("added")
	got := map[string][]string(q)
	if header {
		got = h
	}
	nd.Assert(len(got) == len(want), "the number of names is wrong")
	for _, name := range []string{"A", "B"} {
		nd.Assert(len(got[name]) == len(want[name]), "the number of values is wrong")
		for i, value := range want[name] {
			nd.Assert(got[name][i] == value, "a value is wrong or in other position")
		}
	}
}

// parse tells if the query has a valid value.
func parse(kind int, q url.Values, name string) (bool, error) {
	switch kind {
	case 0:
		v, err := helpers.ParseInteger(q, name)
		return v != nil, err
	case 1:
		v, err := helpers.ParseFloat(q, name)
		return v != nil, err
	case 2:
		v, err := helpers.ParseString(q, name)
		return v != nil, err
	case 3:
		v, err := helpers.ParseBoolean(q, name)
		return v != nil, err
	default:
		v, err := helpers.ParseDate(q, name)
		return v != nil, err
	}
}

var good = []string{"1", "1.5", "x", "true", "2020-01-02T03:04:05Z"}

// Parameters that have several values are reported.
func CheckRepeated() {
	kind := nd.Choose("kind", 5)
	n := nd.Choose("values", 4)
	q := url.Values{}
	for i := 0; i < n; i++ {
		q.Add("p", good[kind])
	}
	ok, err := parse(kind, q, "p")
	nd.Reach("parsed")
	nd.Assert((err != nil) == (n > 1), "wrong result for the number of values")
	nd.Assert(ok == (n == 1), "wrong presence for the number of values")
}

// Values that aren't of the type are reported, and the other ones have the right value.
func CheckIntegers() {
	s := nd.StringOf("s", 0, 3, "019-+x. ")
	i, digits, neg := 0, 0, false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i++
	}
	x, bad := 0, false
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			bad = true
		}
		x = x*10 + int(s[i]-'0')
		digits++
	}
	if neg {
		x = -x
	}
	y, err := helpers.ParseInteger(url.Values{"p": {s}}, "p")
	nd.Reach("parsed")
	if bad || digits == 0 {
		nd.Assert(err != nil && y == nil, "a value that isn't an integer has been accepted")
	} else {
		nd.Assert(err == nil && y != nil && *y == x, "the value of the integer is wrong")
	}
}

// The same for other types.
func CheckInvalid() {
	kind := []int{0, 1, 3, 4}[nd.Choose("kind", 4)]
	s := []string{"", "x", "1x", "1.5.", "tru", "2020-13-01T00:00:00Z", "99999999999999999999999", "2020-01-01"}[nd.Choose("text", 8)]
	nd.Assume(kind != 1 || s != "99999999999999999999999")
	ok, err := parse(kind, url.Values{"p": {s}}, "p")
	nd.Reach("parsed")
	nd.Assert(err != nil && !ok, "an invalid value has been accepted")
}

// fill creates symbolic values.
func fill(n int) map[string][]string {
	if n == 0 {
		return nil
	}
	m := map[string][]string{}
	for i := 1; i < n; i++ {
		var l []string
		k := nd.Choose("count", 4)
		if k > 0 {
			l = []string{}
		}
		for j := 1; j < k; j++ {
			l = append(l, nd.StringOf("v", 0, 1, "xy"))
		}
		m[string(rune('A'+i))] = l
	}
	return m
}

func same(a, b map[string][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		u, ok := b[k]
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range v {
			if u[i] != v[i] {
				return false
			}
		}
	}
	return true
}

// The copies of queries and headers are equal, and changing them doesn't change the original.
func CheckCopies() {
	m := fill(nd.Choose("size", 4))
	saved := map[string][]string{}
	for k, v := range m {
		saved[k] = append([]string{}, v...)
	}
	var c map[string][]string
	if nd.Bool("header") {
		c = helpers.CopyHeader(m)
		nd.Assert(c != nil, "the copy of the header can't be changed")
	} else {
		c = helpers.CopyQuery(m)
	}
	nd.Reach("copied")
	nd.Assert(same(c, m) && same(m, c), "the copy is different")
	for k := range c {
		for i := range c[k] {
			c[k][i] = "z"
		}
		c[k] = append(c[k], "z")
	}
	if c != nil {
		c["Z"] = nil
	}
	nd.Assert(same(saved, m) && same(m, saved), "changing the copy has changed the original")
}

// Headers are added to the ones that exist.
func CheckHeaders() {
	var h http.Header
	s, t, u := nd.StringOf("s", 0, 2, "ab"), nd.StringOf("t", 0, 1, "ab"), nd.StringOf("u", 0, 1, "ab")
	if nd.Bool("before") {
		helpers.AddHeader(&h, "X-A", "old")
	}
	n := len(h["X-A"])
	helpers.AddHeader(&h, "X-A", s)
	helpers.AddHeader(&h, "x-a", t)
	helpers.AddImpersonationHeader(&h, u)
	nd.Reach("added")
	nd.Assert(len(h) == 2 && len(h["X-A"]) == n+2 && h["X-A"][n] == s && h["X-A"][n+1] == t, "the values of the header are wrong")
	nd.Assert(len(h["Impersonate-User"]) == 1 && h["Impersonate-User"][0] == u, "the user is wrong")
}

// The segments of a path are the parts between the slashes, ignoring the leading and trailing ones.
func CheckSegments() {
	p := nd.StringOf("path", 0, 7, "ab/")
	i, j := 0, len(p)
	for i < j && p[i] == '/' {
		i++
	}
	for j > i && p[j-1] == '/' {
		j--
	}
	var want []string
	cur := ""
	for k := i; k < j; k++ {
		if p[k] == '/' {
			want = append(want, cur)
			cur = ""
		} else {
			cur += p[k : k+1]
		}
	}
	want = append(want, cur)
	got := helpers.Segments(p)
	nd.Reach("split")
	nd.Assert(len(got) == len(want), "the number of segments is wrong")
	for k := range want {
		nd.Assert(got[k] == want[k], "a segment is wrong")
	}
}

// Objects can be read from bytes, strings and readers, and anything else is reported.
func CheckSources() {
	s := nd.StringOf("s", 1, 1, "ab")
	doc := `{"name":"` + s + `"}`
	var src interface{}
	k := nd.Choose("source", 7)
	switch k {
	case 0:
		src = doc
	case 1:
		src = []byte(doc)
	case 2:
		src = bytes.NewReader([]byte(doc))
	case 3:
		it, err := helpers.NewIterator(doc)
		nd.Assert(err == nil, "can't create the iterator")
		src = it
	case 4:
		src = 12
	case 5:
		src = nil
	case 6:
		src = &doc
	}
	c, err := v1.UnmarshalCluster(src)
	nd.Reach("read")
	if k < 4 {
		nd.Assert(err == nil && c.Name() == s, "the object is wrong")
	} else {
		nd.Assert(err != nil, "the source has been accepted")
	}
}

// Pointers to values contain the values.
func CheckPointers() {
	b, i, f, s := nd.Bool("b"), nd.Int("i"), nd.Float64("f"), nd.StringOf("s", 0, 1, "ab")
	nd.Assume(f == f)
	d := time.Unix(1, 0)
	nd.Assert(*helpers.NewBoolean(b) == b && *helpers.NewInteger(i) == i && *helpers.NewFloat(f) == f && *helpers.NewString(s) == s && helpers.NewDate(d).Equal(d), "the value is wrong")
	nd.Assert(helpers.NewInteger(i) != helpers.NewInteger(i), "the pointers are shared")
	nd.Reach("done")
}
