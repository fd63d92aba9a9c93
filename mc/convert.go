package main

// Converts the syntax trees of /repo's parser to the common form, by
// reflection on the exported node types.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/eaburns/toaq/ast"
)

// fieldOrder is the textual order of the fields of each node type.
// CoP-like types are handled separately.
var fieldOrder = map[string][]string{
	"Text":                   {"Leading", "Discourse"},
	"StatementSentence":      {"JE", "Statement", "DA"},
	"Prenex":                 {"Terms", "BI"},
	"PrenexStatement":        {"Prenex", "Statement"},
	"Predication":            {"Predicate", "Terms", "NA"},
	"PrefixedPredicate":      {"MU", "Predicate"},
	"SerialPredicate":        {"Left", "Right"},
	"MIPredicate":            {"MI", "Phrase", "GA"},
	"POPredicate":            {"PO", "Argument", "GA"},
	"MOPredicate":            {"MO", "Discourse", "TEO"},
	"LUPredicate":            {"LU", "Statement"},
	"LURelative":             {"LU", "Statement"},
	"LUContent":              {"LU", "Statement"},
	"LUPhrase":               {"LU", "Statement"},
	"LinkedTerm":             {"GO", "Argument"},
	"PredicateArgument":      {"Focus", "Quantifier", "Predicate", "Relative"},
	"PredicationRelative":    {"Predication"},
	"PredicateAdverb":        {"Predicate"},
	"PredicationPreposition": {"Predicate", "Argument"},
	"PredicationContent":     {"Predication"},
	"Parenthetical":          {"KIO", "Discourse", "KI"},
	"Incidental":             {"JU", "Statement"},
	"Vocative":               {"HU", "Argument"},
}

var wordKinds = map[string]bool{"Word": true, "WordPredicate": true, "Interjection": true, "Space": true}

func isCoP(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}
	_, a := t.FieldByName("TO0")
	_, b := t.FieldByName("Right")
	return a && b
}

// fields returns the names of the node-valued fields, in textual order.
func fields(v reflect.Value) []string {
	t := v.Type()
	if isCoP(t) {
		if v.FieldByName("TO0").IsNil() {
			return []string{"Left", "RU", "Right", "TO1"}
		}
		return []string{"TO0", "RU", "Left", "TO1", "Right"}
	}
	fs, ok := fieldOrder[t.Name()]
	if !ok {
		panic(fmt.Sprintf("harness: unknown node type %s", t))
	}
	return fs
}

// convert converts a syntax tree. It returns nil for nil.
func convert(n ast.Node) *T {
	if n == nil {
		return nil
	}
	return convertValue(reflect.ValueOf(n))
}

func convertValue(v reflect.Value) *T {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() && t.Name() == "Terms" {
			return nil
		}
		n := &T{Kind: t.Name()}
		for i := 0; i < v.Len(); i++ {
			k := convertValue(v.Index(i))
			if k == nil {
				k = &T{Kind: "nil"}
			}
			n.Kids = append(n.Kids, fld("", k))
		}
		return n
	case reflect.Struct:
		n := &T{Kind: t.Name()}
		if wordKinds[t.Name()] {
			n.Text = v.FieldByName("T").String()
			n.S = int(v.FieldByName("S").Int())
			n.E = int(v.FieldByName("E").Int())
			if m := convertValue(v.FieldByName("M")); m != nil {
				n.Kids = append(n.Kids, fld("M", m))
			}
			return n
		}
		for _, f := range fields(v) {
			if k := convertValue(v.FieldByName(f)); k != nil {
				n.Kids = append(n.Kids, fld(f, k))
			}
		}
		return n
	}
	panic(fmt.Sprintf("harness: cannot convert %s", t))
}

type serOpts struct {
	text, span, mods bool
}

var serFull = serOpts{true, true, true}
var serContent = serOpts{true, false, true}

func (t *T) ser(o serOpts) string {
	var b strings.Builder
	t.write(&b, o)
	return b.String()
}

func (t *T) write(b *strings.Builder, o serOpts) {
	if t == nil {
		b.WriteString("nil")
		return
	}
	b.WriteByte('(')
	b.WriteString(t.Kind)
	if wordKinds[t.Kind] {
		if o.text {
			b.WriteByte(' ')
			b.WriteString(strconv.Quote(t.Text))
		}
		if o.span {
			b.WriteByte(' ')
			b.WriteString(strconv.Itoa(t.S))
			b.WriteByte(':')
			b.WriteString(strconv.Itoa(t.E))
		}
	}
	for _, k := range t.Kids {
		if k.Name == "M" && !o.mods {
			continue
		}
		b.WriteByte(' ')
		if k.Name != "" {
			b.WriteString(k.Name)
			b.WriteByte(':')
		}
		k.T.write(b, o)
	}
	b.WriteByte(')')
}

// words calls f for each word in textual order, with whether it is a space.
func (t *T) words(f func(w *T, space bool)) {
	if t == nil {
		return
	}
	if wordKinds[t.Kind] {
		f(t, t.Kind == "Space")
	}
	for _, k := range t.Kids {
		k.T.words(f)
	}
}

// text writes out all words.
func (t *T) text() string {
	var b strings.Builder
	t.words(func(w *T, _ bool) { b.WriteString(w.Text) })
	return b.String()
}
