// Package jsonx is an independent parser of JSON documents.
package jsonx

// Value is a JSON value.
type Value struct {
	Kind   byte // 'n', 'b', '0', 's', 'a', 'o'
	Bool   bool
	Number string
	Text   string
	Items  []*Value
	Keys   []string // in the order of the document
}

type parser struct {
	s   string
	i   int
	bad bool
}

// Parse parses a complete document, and returns nil if it isn't valid.
func Parse(s string) *Value {
	p := &parser{s: s}
	p.space()
	v := p.value(0)
	p.space()
	if p.bad || p.i != len(p.s) {
		return nil
	}
	return v
}

func (p *parser) space() {
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return
		}
		p.i++
	}
}

func (p *parser) fail() *Value {
	p.bad = true
	return &Value{Kind: 'n'}
}

func (p *parser) word(w string) bool {
	if len(p.s)-p.i < len(w) {
		return false
	}
	for k := 0; k < len(w); k++ {
		if p.s[p.i+k] != w[k] {
			return false
		}
	}
	p.i += len(w)
	return true
}

func (p *parser) value(depth int) *Value {
	if p.bad || p.i >= len(p.s) || depth > 30 {
		return p.fail()
	}
	switch c := p.s[p.i]; {
	case c == 'n':
		if p.word("null") {
			return &Value{Kind: 'n'}
		}
	case c == 't':
		if p.word("true") {
			return &Value{Kind: 'b', Bool: true}
		}
	case c == 'f':
		if p.word("false") {
			return &Value{Kind: 'b'}
		}
	case c == '"':
		return &Value{Kind: 's', Text: p.text()}
	case c == '-' || c >= '0' && c <= '9':
		return p.number()
	case c == '[':
		p.i++
		v := &Value{Kind: 'a'}
		p.space()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			return v
		}
		for !p.bad {
			p.space()
			v.Items = append(v.Items, p.value(depth+1))
			p.space()
			if p.i >= len(p.s) {
				return p.fail()
			}
			c := p.s[p.i]
			p.i++
			if c == ']' {
				return v
			}
			if c != ',' {
				return p.fail()
			}
		}
	case c == '{':
		p.i++
		v := &Value{Kind: 'o'}
		p.space()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			return v
		}
		for !p.bad {
			p.space()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return p.fail()
			}
			v.Keys = append(v.Keys, p.text())
			p.space()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				return p.fail()
			}
			p.i++
			p.space()
			v.Items = append(v.Items, p.value(depth+1))
			p.space()
			if p.i >= len(p.s) {
				return p.fail()
			}
			c := p.s[p.i]
			p.i++
			if c == '}' {
				return v
			}
			if c != ',' {
				return p.fail()
			}
		}
	}
	return p.fail()
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

func (p *parser) number() *Value {
	start := p.i
	if p.s[p.i] == '-' {
		p.i++
	}
	n := 0
	first := p.i
	for p.i < len(p.s) && digit(p.s[p.i]) {
		p.i++
		n++
	}
	if n == 0 || n > 1 && p.s[first] == '0' {
		return p.fail()
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		n = 0
		for p.i < len(p.s) && digit(p.s[p.i]) {
			p.i++
			n++
		}
		if n == 0 {
			return p.fail()
		}
	}
	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && (p.s[p.i] == '-' || p.s[p.i] == '+') {
			p.i++
		}
		n = 0
		for p.i < len(p.s) && digit(p.s[p.i]) {
			p.i++
			n++
		}
		if n == 0 {
			return p.fail()
		}
	}
	return &Value{Kind: '0', Number: p.s[start:p.i]}
}

func hex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *parser) text() string {
	p.i++
	out := ""
	start := p.i
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c == '"' {
			out += p.s[start:p.i]
			p.i++
			return out
		}
		if c < 0x20 {
			break
		}
		if c != '\\' {
			p.i++
			continue
		}
		out += p.s[start:p.i]
		p.i++
		if p.i >= len(p.s) {
			break
		}
		switch e := p.s[p.i]; e {
		case '"':
			out += "\""
		case '\\':
			out += "\\"
		case '/':
			out += "/"
		case 'b':
			out += "\b"
		case 'f':
			out += "\f"
		case 'n':
			out += "\n"
		case 'r':
			out += "\r"
		case 't':
			out += "\t"
		case 'u':
			r := 0
			for k := 1; k <= 4; k++ {
				if p.i+k >= len(p.s) || hex(p.s[p.i+k]) < 0 {
					p.bad = true
					return out
				}
				r = r*16 + hex(p.s[p.i+k])
			}
			p.i += 4
			out += string(rune(r))
		default:
			p.bad = true
			return out
		}
		p.i++
		start = p.i
	}
	p.bad = true
	return out
}

// Get returns the member of an object, or nil.
func (v *Value) Get(name string) *Value {
	if v == nil || v.Kind != 'o' {
		return nil
	}
	for i, k := range v.Keys {
		if k == name {
			return v.Items[i]
		}
	}
	return nil
}

// Unique tells if the names of the members are different, in all the document.
func (v *Value) Unique() bool {
	for i, x := range v.Items {
		if !x.Unique() {
			return false
		}
		if v.Kind == 'o' {
			for j := 0; j < i; j++ {
				if v.Keys[i] == v.Keys[j] {
					return false
				}
			}
		}
	}
	return true
}
