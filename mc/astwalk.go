package main

// Walks the code's syntax trees by reflection, independently of ast.Visit.

import (
	"reflect"

	"github.com/eaburns/toaq/ast"
)

var (
	nodeType     = reflect.TypeOf((*ast.Node)(nil)).Elem()
	copType      = reflect.TypeOf(ast.CoP{})
	luType       = reflect.TypeOf(ast.LUPhrase{})
	wordType     = reflect.TypeOf(ast.Word{})
	termsType    = reflect.TypeOf(ast.Terms(nil))
	wordPtrType  = reflect.TypeOf((*ast.Word)(nil))
	modIfaceType = reflect.TypeOf((*ast.Mod)(nil)).Elem()
)

// isNilNode reports whether a node is absent.
func isNilNode(n ast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil()
}

// children returns the children of a node in textual order, as documented for
// ast.Visit: word-, CoP- and LU-like nodes have the Word, CoP or LUPhrase as
// their only child.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	add := func(k ast.Node) {
		if !isNilNode(k) {
			out = append(out, k)
		}
	}
	v := reflect.ValueOf(n)
	if v.Type() == termsType {
		for i := 0; i < v.Len(); i++ {
			add(v.Index(i).Interface().(ast.Node))
		}
		return out
	}
	e := v.Elem()
	t := e.Type()
	if e.Kind() == reflect.Slice {
		for i := 0; i < e.Len(); i++ {
			k, _ := e.Index(i).Interface().(ast.Node)
			add(k)
		}
		return out
	}
	for _, base := range []reflect.Type{copType, luType, wordType} {
		if t != base && t.ConvertibleTo(base) {
			add(v.Convert(reflect.PtrTo(base)).Interface().(ast.Node))
			return out
		}
	}
	if t == wordType {
		add(v.Interface().(*ast.Word).M)
		return out
	}
	for _, f := range fields(e) {
		add(fieldNode(e.FieldByName(f)))
	}
	return out
}

// fieldNode returns the node in a field of a node.
func fieldNode(f reflect.Value) ast.Node {
	if f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr {
		if f.IsNil() {
			return nil
		}
		return f.Interface().(ast.Node)
	}
	if f.Type() == termsType {
		return f.Interface().(ast.Node)
	}
	return f.Addr().Interface().(ast.Node)
}

// allNodes returns all nodes in the order of a traversal.
func allNodes(n ast.Node) []ast.Node {
	var out []ast.Node
	var rec func(ast.Node)
	rec = func(n ast.Node) {
		if isNilNode(n) {
			return
		}
		out = append(out, n)
		for _, k := range children(n) {
			rec(k)
		}
	}
	rec(n)
	return out
}

// nodeID identifies a node within a tree.
type nodeID struct {
	t reflect.Type
	p uintptr
}

func idOf(n ast.Node) nodeID {
	if n == nil {
		return nodeID{}
	}
	v := reflect.ValueOf(n)
	return nodeID{v.Type(), v.Pointer()}
}

// spans calls f for each node with the start of its first word and the end of
// its last word, not counting modifiers of the last word or space before the text.
func spans(n ast.Node, f func(n ast.Node, s, e int)) (s, e int) {
	ks := children(n)
	for i, k := range ks {
		ks, ke := spans(k, f)
		if i == 0 {
			s = ks
		}
		e = ke
	}
	switch x := n.(type) {
	case *ast.Word:
		s, e = x.S, x.E
	case *ast.Text:
		if len(ks) == 2 {
			// The first is the space before the text.
			s, _ = spans(ks[1], func(ast.Node, int, int) {})
		}
		if len(x.Discourse) == 0 {
			s, e = 0, 0
		}
	}
	f(n, s, e)
	return s, e
}

// deepCopy copies a tree.
func deepCopy(n ast.Node) ast.Node {
	return copyValue(reflect.ValueOf(n)).Interface().(ast.Node)
}

func copyValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(copyValue(v.Elem()))
		return c
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type().Elem())
		c.Elem().Set(copyValue(v.Elem()))
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(copyValue(v.Index(i)))
		}
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			c.Field(i).Set(copyValue(v.Field(i)))
		}
		return c
	}
	return v
}
