package p01

import (
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

const (
	lowers = "abcdefghijklmnopqrstuvwxyz"
	uppers = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits = "0123456789"
)

// lower is an independent lower casing of ASCII text that doesn't fork the exploration.
func lower(s string) string {
	out := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		out[i] = c | (0x20 * bit(nd.And('A' <= c, c <= 'Z')))
	}
	return string(out)
}

func bit(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// identifier is an arbitrary identifier of the modelling language.
func identifier(name string, max int) string {
	s := nd.StringOf(name, 1, max, lowers+uppers+digits+"_")
	nd.Assume(nd.Not(nd.In(s[0], digits)))
	return s
}

func joined(n *names.Name, sep string) string {
	s := ""
	for i, w := range n.Words() {
		if i > 0 {
			s += sep
		}
		s += w.String()
	}
	return s
}

// Parsing an identifier by its case transitions neither loses, invents nor reorders characters, and
// keeps the original text.
func CheckCaseWords() {
	text := identifier("text", nd.Bound("identifier", 7, 8))
	n := names.ParseUsingCase(text)
	nd.Observe("name", n.String())
	nd.Reach("parsed")
	nd.Assert(n.Text() == text, "the name doesn't keep the original text")
	words := n.Words()
	nd.Assert(len(words) > 0, "the name has no words")
	for _, w := range words {
		nd.Assert(w.String() != "", "a word is empty")
	}
	nd.Assert(lower(joined(n, "")) == lower(text), "the words of the name aren't the characters of the identifier")
	nd.Assert(n.LowerJoined("") == lower(text), "lower joined name isn't the identifier in lower case")
	nd.Assert(n.Snake() == lower(joined(n, "_")), "snake case isn't the words joined with underscores")
}

// An identifier written in camel case is what the name gives back in camel case, so that different
// identifiers never collide.
func CheckCamelRoundTrip() {
	text := nd.StringOf("text", 1, nd.Bound("identifier", 7, 8), lowers+uppers+digits)
	nd.Assume(nd.In(text[0], uppers))
	n := names.ParseUsingCase(text)
	nd.Observe("camel", n.Camel())
	nd.Reach("parsed")
	nd.Assert(n.Camel() == text, "camel case doesn't give back the identifier")
}

// Parsing with a separator splits exactly at the separators.
func CheckSeparator() {
	text := nd.StringOf("text", 0, nd.Bound("text", 6, 9), lowers+uppers+digits+"_-")
	sep := "_"
	if nd.Bool("dash") {
		sep = "-"
	}
	n := names.ParseUsingSeparator(text, sep)
	nd.Observe("name", n.String())
	nd.Reach("parsed")
	count := 1
	for i := 0; i < len(text); i++ {
		if text[i] == sep[0] {
			count++
		}
	}
	words := n.Words()
	nd.Assert(len(words) == count, "wrong number of words")
	nd.Assert(joined(n, sep) == text, "the words joined with the separator aren't the text")
	for _, w := range words {
		nd.Assert(!strings.Contains(w.String(), sep), "a word contains the separator")
	}
	nd.Assert(n.Text() == text, "the name doesn't keep the original text")
}

// long is an identifier with many words: an arbitrary piece in the middle of repeated pieces.
func long(set string, pieces []string) string {
	counts := []int{0, 1, 2, 5, 14}
	first, last := pieces[nd.Choose("first", len(pieces))], pieces[nd.Choose("last", len(pieces))]
	middle := nd.StringOf("middle", 0, nd.Bound("middle", 2, 3), set)
	return strings.Repeat(first, counts[nd.Choose("before", len(counts))]) + middle +
		strings.Repeat(last, counts[nd.Choose("after", len(counts))])
}

// Long identifiers don't lose, invent nor reorder characters, and different ones never collide.
func CheckLongCase() {
	text := "X" + long(lowers+uppers+digits, []string{"Word", "CPU", "lower", "IDs", "A", "7"})
	n := names.ParseUsingCase(text)
	nd.Observe("camel", n.Camel())
	nd.Reach("parsed")
	nd.Assert(n.Text() == text, "the name doesn't keep the original text")
	nd.Assert(n.Camel() == text, "camel case doesn't give back the identifier")
	nd.Assert(lower(joined(n, "")) == lower(text), "the words of the name aren't the characters of the identifier")
	nd.Assert(n.Snake() == lower(joined(n, "_")), "snake case isn't the words joined with underscores")
	nd.Assert(n.LowerJoined("-") == lower(joined(n, "-")), "lower joined name isn't the words joined")
}

// Long texts are split exactly at the separators.
func CheckLongSeparator() {
	text := long("aZ0_-", []string{"a_", "_", "word_", "-", "B"})
	n := names.ParseUsingSeparator(text, "_")
	nd.Observe("name", n.String())
	nd.Reach("parsed")
	nd.Assert(len(n.Words()) == strings.Count(text, "_")+1, "wrong number of words")
	nd.Assert(joined(n, "_") == text && n.Text() == text, "the words joined with the separator aren't the text")
}
