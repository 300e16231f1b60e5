package tmpl

import (
	"errors"
	"fmt"
	"io"
	"text/template"
)

// This is an interpreter of the templates of the standard library. It uses the syntax tree, and it calls
// methods and functions with the help of the engine.

// The following functions are implemented by the engine.

func method(x interface{}, name string, args []interface{}) ([]interface{}, bool) { panic("engine") }
func call(f interface{}, args []interface{}) ([]interface{}, bool)                { panic("engine") }
func elements(x interface{}) ([]interface{}, bool)                                { panic("engine") }
func size(x interface{}) int                                                      { panic("engine") }
func syntax(text string) (*node, string)                                          { panic("engine") }

// node is a node of the syntax tree. The engine knows the order of these fields.
type node struct {
	kind  string
	text  string
	num   int
	list  []*node
	other []*node
	pipe  *node
	names []string
}

type parsed struct {
	template  *template.Template
	functions template.FuncMap
	root      *node
}

var templates []*parsed

func lookup(t *template.Template) *parsed {
	for _, p := range templates {
		if p.template == t {
			return p
		}
	}
	p := &parsed{template: t, functions: template.FuncMap{}}
	templates = append(templates, p)
	return p
}

//override text/template.New
func newTemplate(name string) *template.Template { return new(template.Template) }

//override (*text/template.Template).Funcs
func funcs(t *template.Template, f template.FuncMap) *template.Template {
	p := lookup(t)
	for k, v := range f {
		p.functions[k] = v
	}
	return t
}

var builtins = []string{"and", "or", "not", "len", "print", "printf", "println", "eq", "ne", "lt", "le", "gt", "ge", "index", "slice", "html", "js", "urlquery", "call"}

//override (*text/template.Template).Parse
func parse(t *template.Template, text string) (*template.Template, error) {
	root, message := syntax(text)
	if message != "" {
		return nil, errors.New(message)
	}
	p := lookup(t)
	p.root = root
	if err := check(p, root); err != nil {
		return nil, err
	}
	return t, nil
}

// check checks that the functions exist.
func check(p *parsed, n *node) error {
	if n == nil {
		return nil
	}
	if n.kind == "function" {
		if _, ok := p.functions[n.text]; ok {
			return nil
		}
		for _, b := range builtins {
			if b == n.text {
				return nil
			}
		}
		return errors.New("template: function \"" + n.text + "\" not defined")
	}
	for _, x := range n.list {
		if err := check(p, x); err != nil {
			return err
		}
	}
	for _, x := range n.other {
		if err := check(p, x); err != nil {
			return err
		}
	}
	return check(p, n.pipe)
}

type variable struct {
	name  string
	value interface{}
}

type state struct {
	parsed *parsed
	writer io.Writer
	vars   []variable
}

// novalue is the value of the members of maps that don't exist.
type novalue struct{}

type failure struct{ err error }

func fail(text string) { panic(failure{errors.New(text)}) }

//override (*text/template.Template).Execute
func execute(t *template.Template, w io.Writer, data interface{}) (err error) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(failure)
			if !ok {
				panic(r)
			}
			err = f.err
		}
	}()
	p := lookup(t)
	if p.root == nil {
		return errors.New("template: incomplete or empty template")
	}
	s := &state{parsed: p, writer: w, vars: []variable{{"$", data}}}
	s.list(data, p.root.list)
	return nil
}

func (s *state) list(dot interface{}, nodes []*node) {
	for _, n := range nodes {
		s.walk(dot, n)
	}
}

func (s *state) write(text string) {
	if _, err := io.WriteString(s.writer, text); err != nil {
		panic(failure{err})
	}
}

func (s *state) walk(dot interface{}, n *node) {
	switch n.kind {
	case "list":
		s.list(dot, n.list)
	case "text":
		s.write(n.text)
	case "action":
		x := s.pipe(dot, n.pipe)
		if len(n.pipe.names) == 0 {
			s.write(text(x))
		}
	case "if", "with":
		mark := len(s.vars)
		x := s.pipe(dot, n.pipe)
		if truth(x) {
			if n.kind == "with" {
				dot = x
			}
			s.list(dot, n.list)
		} else {
			s.list(dot, n.other)
		}
		s.vars = s.vars[:mark]
	case "range":
		mark := len(s.vars)
		x := s.pipe(dot, n.pipe)
		if x == nil || x == (novalue{}) {
			x = []interface{}{}
		}
		items, ok := elements(x)
		if !ok {
			unsupported()
		}
		for i, item := range items {
			if k := len(n.pipe.names); k > 0 {
				s.vars[len(s.vars)-1].value = item
				if k > 1 {
					s.vars[len(s.vars)-2].value = i
				}
			}
			inner := len(s.vars)
			s.list(item, n.list)
			s.vars = s.vars[:inner]
		}
		if len(items) == 0 {
			s.vars = s.vars[:mark]
			s.list(dot, n.other)
		}
		s.vars = s.vars[:mark]
	default:
		unsupported()
	}
}

func (s *state) pipe(dot interface{}, n *node) interface{} {
	var x interface{}
	for i, c := range n.list {
		var final []interface{}
		if i > 0 {
			final = []interface{}{x}
		}
		x = s.command(dot, c, final)
	}
	for _, name := range n.names {
		if n.num == 1 {
			found := false
			for i := len(s.vars) - 1; i >= 0 && !found; i-- {
				if s.vars[i].name == name {
					s.vars[i].value = x
					found = true
				}
			}
			if !found {
				fail("undefined variable: " + name)
			}
		} else {
			s.vars = append(s.vars, variable{name, x})
		}
	}
	return x
}

func (s *state) command(dot interface{}, n *node, final []interface{}) interface{} {
	first := n.list[0]
	rest := n.list[1:]
	switch first.kind {
	case "field":
		return s.fields(dot, dot, first.names, rest, final)
	case "variable":
		x := s.variable(first.names[0])
		if len(first.names) == 1 {
			if len(rest) > 0 || len(final) > 0 {
				fail("can't give argument to non-function")
			}
			return x
		}
		return s.fields(dot, x, first.names[1:], rest, final)
	case "chain":
		return s.fields(dot, s.arg(dot, first.list[0]), first.names, rest, final)
	case "function":
		return s.function(dot, first.text, rest, final)
	}
	if len(rest) > 0 || len(final) > 0 {
		fail("can't give argument to non-function")
	}
	return s.arg(dot, first)
}

func (s *state) variable(name string) interface{} {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i].value
		}
	}
	fail("undefined variable: " + name)
	return nil
}

func (s *state) arg(dot interface{}, n *node) interface{} {
	switch n.kind {
	case "dot":
		return dot
	case "nil":
		return nil
	case "bool":
		return n.num == 1
	case "number":
		return n.num
	case "string":
		return n.text
	case "pipe":
		return s.pipe(dot, n)
	case "field", "variable", "function":
		return s.command(dot, &node{kind: "command", list: []*node{n}}, nil)
	case "chain":
		return s.fields(dot, s.arg(dot, n.list[0]), n.names, nil, nil)
	}
	unsupported()
	return nil
}

func (s *state) args(dot interface{}, nodes []*node, final []interface{}) []interface{} {
	var out []interface{}
	for _, n := range nodes {
		x := s.arg(dot, n)
		if x == (novalue{}) {
			x = nil
		}
		out = append(out, x)
	}
	return append(out, final...)
}

// fields evaluates a chain of fields; the arguments are the ones of the last.
func (s *state) fields(dot, x interface{}, names []string, rest []*node, final []interface{}) interface{} {
	for i, name := range names {
		var args []interface{}
		last := i == len(names)-1
		if last {
			args = s.args(dot, rest, final)
		}
		x = s.field(x, name, args)
	}
	return x
}

func (s *state) field(x interface{}, name string, args []interface{}) interface{} {
	if x == nil || x == (novalue{}) {
		fail("nil data; no entry for key \"" + name + "\"")
	}
	if m, ok := x.(map[string]interface{}); ok {
		if len(args) > 0 {
			fail(name + " is not a method but has arguments")
		}
		v, ok := m[name]
		if !ok {
			return novalue{}
		}
		return v
	}
	var results []interface{}
	ok := false
	s.protect(name, func() { results, ok = method(x, name, args) })
	if !ok {
		fail("can't evaluate field " + name)
	}
	return result(results)
}

// protect converts panics of the functions called to errors.
func (s *state) protect(name string, f func()) {
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = errors.New("error calling " + name)
			}
		}()
		f()
	}()
	if err != nil {
		panic(failure{err})
	}
}

func result(results []interface{}) interface{} {
	if len(results) == 2 {
		if err, ok := results[1].(error); ok && err != nil {
			panic(failure{err})
		}
	}
	return results[0]
}

func (s *state) function(dot interface{}, name string, rest []*node, final []interface{}) interface{} {
	if f, ok := s.parsed.functions[name]; ok {
		args := s.args(dot, rest, final)
		var results []interface{}
		valid := false
		s.protect(name, func() { results, valid = call(f, args) })
		if !valid {
			fail("wrong arguments for " + name)
		}
		return result(results)
	}
	if name == "and" || name == "or" {
		var x interface{}
		for _, n := range rest {
			x = s.arg(dot, n)
			if truth(x) == (name == "or") {
				return x
			}
		}
		if len(final) > 0 {
			x = final[0]
		}
		return x
	}
	args := s.args(dot, rest, final)
	switch name {
	case "not":
		return !truth(args[0])
	case "len":
		if t, ok := args[0].(string); ok {
			return len(t)
		}
		items, ok := elements(args[0])
		if !ok {
			unsupported()
		}
		return len(items)
	case "print":
		return fmt.Sprint(args...)
	case "println":
		return fmt.Sprintln(args...)
	case "printf":
		return fmt.Sprintf(args[0].(string), args[1:]...)
	case "eq", "ne", "lt", "le", "gt", "ge":
		return compare(name, args[0], args[1])
	}
	unsupported()
	return nil
}

func compare(name string, x, y interface{}) bool {
	var less, equal bool
	switch a := x.(type) {
	case int:
		b, ok := y.(int)
		if !ok {
			unsupported()
		}
		less, equal = a < b, a == b
	case string:
		b, ok := y.(string)
		if !ok {
			unsupported()
		}
		less, equal = a < b, a == b
	case bool:
		b, ok := y.(bool)
		if !ok || name != "eq" && name != "ne" {
			unsupported()
		}
		equal = a == b
	default:
		unsupported()
	}
	switch name {
	case "eq":
		return equal
	case "ne":
		return !equal
	case "lt":
		return less
	case "le":
		return less || equal
	case "gt":
		return !less && !equal
	}
	return !less
}

func truth(x interface{}) bool {
	switch x := x.(type) {
	case nil:
		return false
	case novalue:
		return false
	case bool:
		return x
	case string:
		return len(x) > 0
	case int:
		return x != 0
	}
	return size(x) > 0
}

func text(x interface{}) string {
	switch x := x.(type) {
	case nil:
		return "<no value>"
	case novalue:
		return "<no value>"
	case string:
		return x
	}
	return fmt.Sprint(x)
}
