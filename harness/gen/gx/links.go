package gx

import (
	"strconv"

	v1 "verifgen/api/clustersmgmt/v1"
)

// ListLink describes the list of groups of a cluster, as it is in a document.
type ListLink struct {
	Kind  string
	HREF  string
	Items int
	Last  bool
}

// Document is the document of a cluster that has the list of groups.
func (l *ListLink) Document() string {
	var members []string
	if l.Kind != "" {
		members = append(members, `"kind":"`+l.Kind+`"`)
	}
	if l.HREF != "" {
		members = append(members, `"href":"`+l.HREF+`"`)
	}
	if l.Items >= 0 {
		items := `"items":[`
		for i := 0; i < l.Items; i++ {
			if i > 0 {
				items += ","
			}
			items += `{"kind":"GroupLink","id":"` + strconv.Itoa(i) + `"}`
		}
		items += "]"
		if l.Last {
			members = append(members, items)
		} else {
			members = append([]string{items}, members...)
		}
	}
	text := ""
	for i, m := range members {
		if i > 0 {
			text += ","
		}
		text += m
	}
	return `{"kind":"Cluster","groups":{` + text + `},"name":"n"}`
}

// Check checks that the cluster has the list.
func (l *ListLink) Check(assert func(bool, string), o *v1.Cluster) {
	groups, ok := o.GetGroups()
	assert(ok && groups != nil && o.Name() == "n", "the list has been lost")
	link := l.Kind == "GroupListLink"
	assert(groups.Link() == link, "a link to a list isn't a link any more, or the other way around")
	kind := "GroupList"
	if link {
		kind = "GroupListLink"
	}
	assert(groups.Kind() == kind, "the kind of the list is wrong")
	href, has := groups.GetHREF()
	assert(groups.HREF() == l.HREF && href == l.HREF && has == (l.HREF != ""), "the address of the list has been changed")
	n := l.Items
	if n < 0 {
		n = 0
	}
	assert(groups.Len() == n && len(groups.Items()) == n && groups.Empty() == (n == 0), "the number of items of the list has been changed")
	for i := 0; i < n; i++ {
		assert(groups.Get(i).Link() && groups.Get(i).ID() == strconv.Itoa(i), "an item of the list has been changed")
	}
}
