package main

// Calls by name and by reflection, and the syntax of the templates, which the interpreter of templates
// of the harnesses needs.

import (
	"fmt"
	"go/types"
	"sync"
	"text/template/parse"
)

const tmplPath = "github.com/openshift-online/ocm-api-metamodel/zzverif/tmpl"

// convert converts an argument to the type of a parameter.
func (w *Worker) convert(a Iface, t types.Type) (Value, bool) {
	if i, ok := t.Underlying().(*types.Interface); ok {
		if a.t == nil || w.implements(a.t, i) {
			return a, true
		}
		return nil, false
	}
	if a.t == nil {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Signature:
			return zero(t), true
		}
		return nil, false
	}
	if types.Identical(a.t, t) {
		return a.v, true
	}
	return nil, false
}

func (w *Worker) reflectArgs(sig *types.Signature, given []Value) ([]Value, bool) {
	n := sig.Params().Len()
	var args []Value
	if sig.Variadic() {
		if len(given) < n-1 {
			return nil, false
		}
		rest := []Value{}
		et := sig.Params().At(n - 1).Type().(*types.Slice).Elem()
		for i, g := range given {
			t := et
			if i < n-1 {
				t = sig.Params().At(i).Type()
			}
			v, ok := w.convert(g.(Iface), t)
			if !ok {
				return nil, false
			}
			if i < n-1 {
				args = append(args, v)
			} else {
				rest = append(rest, v)
			}
		}
		return append(args, rest), true
	}
	if len(given) != n {
		return nil, false
	}
	for i, g := range given {
		v, ok := w.convert(g.(Iface), sig.Params().At(i).Type())
		if !ok {
			return nil, false
		}
		args = append(args, v)
	}
	return args, true
}

func reflectResults(sig *types.Signature, r Value) []Value {
	n := sig.Results().Len()
	var vs []Value
	switch n {
	case 0:
	case 1:
		vs = []Value{r}
	default:
		vs = r.(Tuple)
	}
	out := make([]Value, n)
	for i := range out {
		t := sig.Results().At(i).Type()
		if _, ok := t.Underlying().(*types.Interface); ok {
			out[i] = vs[i]
		} else {
			out[i] = Iface{t, vs[i]}
		}
	}
	return out
}

var trees sync.Map

func templateNatives(m map[string]nativeFn) {
	m[tmplPath+".method"] = func(fr *frame, args []Value) Value {
		x := args[0].(Iface)
		name := constStr(args[1])
		if x.t == nil {
			return Tuple{[]Value(nil), false}
		}
		f := fr.w.findMethod(x.t, nil, name)
		if f == nil {
			return Tuple{[]Value(nil), false}
		}
		sig := f.Signature
		as, ok := fr.w.reflectArgs(sig, args[2].([]Value))
		if !ok {
			return Tuple{[]Value(nil), false}
		}
		r := fr.w.callFunction(fr, f, append([]Value{copyVal(x.v)}, as...), nil)
		return Tuple{reflectResults(sig, r), true}
	}
	m[tmplPath+".call"] = func(fr *frame, args []Value) Value {
		x := args[0].(Iface)
		if x.t == nil {
			return Tuple{[]Value(nil), false}
		}
		sig, ok := x.t.Underlying().(*types.Signature)
		if !ok {
			return Tuple{[]Value(nil), false}
		}
		as, ok := fr.w.reflectArgs(sig, args[1].([]Value))
		if !ok {
			return Tuple{[]Value(nil), false}
		}
		return Tuple{reflectResults(sig, fr.w.callValue(fr, x.v, as)), true}
	}
	m[tmplPath+".elements"] = func(fr *frame, args []Value) Value {
		x := args[0].(Iface)
		if x.t == nil {
			return Tuple{[]Value(nil), false}
		}
		s, ok := x.t.Underlying().(*types.Slice)
		if !ok {
			return Tuple{[]Value(nil), false}
		}
		_, iface := s.Elem().Underlying().(*types.Interface)
		out := []Value{}
		for _, e := range x.v.([]Value) {
			if iface {
				out = append(out, e)
			} else {
				out = append(out, Iface{s.Elem(), copyVal(e)})
			}
		}
		return Tuple{out, true}
	}
	// size returns a number that is zero only for nil pointers, and for empty maps and slices.
	m[tmplPath+".size"] = func(fr *frame, args []Value) Value {
		x := args[0].(Iface)
		if x.t == nil {
			return I(0)
		}
		n := 1
		switch v := x.v.(type) {
		case *Value:
			if v == nil {
				n = 0
			}
		case *Map:
			n = 0
			if v != nil {
				n = v.live
			}
		case *Closure:
			if v == nil {
				n = 0
			}
		case []Value:
			n = len(v)
		}
		return I(n)
	}
	m[tmplPath+".syntax"] = func(fr *frame, args []Value) Value {
		text := constStr(args[0])
		if v, ok := trees.Load(text); ok {
			return v
		}
		nt := fr.w.sh.findType(tmplPath, "node")
		t := parse.New("")
		t.Mode = parse.SkipFuncCheck
		set := map[string]*parse.Tree{}
		var v Value
		if _, err := t.Parse(text, "", "", set); err != nil {
			v = Tuple{(*Value)(nil), err.Error()}
		} else {
			v = Tuple{newNode(nt, t.Root), ""}
		}
		trees.Store(text, v)
		return v
	}
	m["reflect.ValueOf"] = func(fr *frame, args []Value) Value { return Struct{args[0], (*Value)(nil), I(0)} }
	m["(reflect.Value).Interface"] = func(fr *frame, args []Value) Value { return args[0].(Struct)[0] }
	m["(reflect.Value).Call"] = func(fr *frame, args []Value) Value {
		f := args[0].(Struct)[0].(Iface)
		sig, ok := f.t.Underlying().(*types.Signature)
		if !ok {
			fr.w.rtPanic("reflect: call of Call on something that isn't a function")
		}
		var given []Value
		for _, a := range args[1].([]Value) {
			x := a.(Struct)[0].(Iface)
			if x.t == nil {
				fr.w.rtPanic("reflect: Call using zero Value argument")
			}
			given = append(given, x)
		}
		as, ok := fr.w.reflectArgs(sig, given)
		if !ok {
			fr.w.rtPanic("reflect: Call with wrong arguments")
		}
		out := []Value{}
		for _, r := range reflectResults(sig, fr.w.callValue(fr, f.v, as)) {
			out = append(out, Struct{r, (*Value)(nil), I(0)})
		}
		return out
	}
}

// newNode converts a node of the syntax tree to the representation of the harnesses.
func newNode(nt types.Type, n parse.Node) Value {
	kind, text, num := "", "", 0
	var list, other []Value
	var pipe Value = (*Value)(nil)
	var names []Value
	strs := func(ss []string) {
		for _, s := range ss {
			names = append(names, s)
		}
	}
	nodes := func(l *parse.ListNode) (out []Value) {
		if l != nil {
			for _, x := range l.Nodes {
				out = append(out, newNode(nt, x))
			}
		}
		return
	}
	branch := func(k string, b *parse.BranchNode) {
		kind, pipe, list, other = k, newNode(nt, b.Pipe), nodes(b.List), nodes(b.ElseList)
		if b.ElseList != nil {
			num = 1
		}
	}
	switch n := n.(type) {
	case *parse.ListNode:
		kind, list = "list", nodes(n)
	case *parse.TextNode:
		kind, text = "text", string(n.Text)
	case *parse.ActionNode:
		kind, pipe = "action", newNode(nt, n.Pipe)
	case *parse.IfNode:
		branch("if", &n.BranchNode)
	case *parse.RangeNode:
		branch("range", &n.BranchNode)
	case *parse.WithNode:
		branch("with", &n.BranchNode)
	case *parse.PipeNode:
		kind = "pipe"
		if n.IsAssign {
			num = 1
		}
		for _, d := range n.Decl {
			names = append(names, d.Ident[0])
		}
		for _, c := range n.Cmds {
			list = append(list, newNode(nt, c))
		}
	case *parse.CommandNode:
		kind = "command"
		for _, a := range n.Args {
			list = append(list, newNode(nt, a))
		}
	case *parse.FieldNode:
		kind = "field"
		strs(n.Ident)
	case *parse.VariableNode:
		kind = "variable"
		strs(n.Ident)
	case *parse.ChainNode:
		kind, list = "chain", []Value{newNode(nt, n.Node)}
		strs(n.Field)
	case *parse.IdentifierNode:
		kind, text = "function", n.Ident
	case *parse.DotNode:
		kind = "dot"
	case *parse.NilNode:
		kind = "nil"
	case *parse.BoolNode:
		kind = "bool"
		if n.True {
			num = 1
		}
	case *parse.NumberNode:
		kind, num = "number", int(n.Int64)
		if !n.IsInt {
			kind = "unsupported"
		}
	case *parse.StringNode:
		kind, text = "string", n.Text
	case *parse.CommentNode:
		kind = "text"
	default:
		kind, text = "unsupported", fmt.Sprintf("%T", n)
	}
	var v Value = Struct{kind, text, I(num), list, other, pipe, names}
	return &v
}
