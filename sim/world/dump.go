package world

import (
	"reflect"
	"sort"
	"strconv"
	"strings"

	geoql "github.com/mmadfox/go-geoql-parser"
)

var posType = reflect.TypeOf(geoql.Pos(0))

// dump writes the exported fields of a rule, without source positions unless asked for.
func dump(x any, positions bool) string {
	var b strings.Builder
	d := &dumper{b: &b, pos: positions, seen: map[uintptr]bool{}}
	d.value(reflect.ValueOf(x), 0)
	return b.String()
}

type dumper struct {
	b    *strings.Builder
	pos  bool
	seen map[uintptr]bool
}

func (d *dumper) value(v reflect.Value, depth int) {
	if depth > 3000 {
		d.b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		d.b.WriteString("nil")
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.value(v.Elem(), depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if d.seen[v.Pointer()] {
			d.b.WriteString("cycle")
			return
		}
		d.seen[v.Pointer()] = true
		d.value(v.Elem(), depth+1)
		delete(d.seen, v.Pointer())
		if d.pos {
			if e, ok := v.Interface().(geoql.Expr); ok {
				d.b.WriteString("#" + exprPos(e))
				if p, ok := e.(*geoql.GeometryPolygonTyp); ok && p.HasHoles() {
					d.b.WriteString("holes")
				}
			}
		}
	case reflect.Struct:
		t := v.Type()
		d.b.WriteString(t.Name() + "{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || !d.pos && f.Type == posType {
				continue
			}
			d.b.WriteString(f.Name + ":")
			d.value(v.Field(i), depth+1)
			d.b.WriteString(" ")
		}
		d.b.WriteString("}")
	case reflect.Slice, reflect.Array:
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b.WriteString(", ")
			}
			d.value(v.Index(i), depth+1)
		}
		d.b.WriteString("]")
	case reflect.Map:
		var lines []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			kd := &dumper{b: &kb, pos: d.pos, seen: d.seen}
			kd.value(k, depth+1)
			kb.WriteString(":")
			kd.value(v.MapIndex(k), depth+1)
			lines = append(lines, kb.String())
		}
		sort.Strings(lines)
		d.b.WriteString("map[" + strings.Join(lines, " ") + "]")
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		d.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.b.WriteString("f" + strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		d.b.WriteString(v.Kind().String())
	}
}

func exprPos(e geoql.Expr) (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return strconv.Itoa(int(e.Pos())) + "-" + strconv.Itoa(int(e.End()))
}

// children are the expressions a traversal descends to, in source order, per
// the property: geometries are leaves.
func children(e geoql.Expr) []geoql.Expr {
	var out []geoql.Expr
	add := func(xs ...geoql.Expr) {
		for _, x := range xs {
			if x != nil {
				out = append(out, x)
			}
		}
	}
	switch t := e.(type) {
	case *geoql.Trigger:
		for _, v := range t.Vars {
			add(v)
		}
		add(t.When, t.RepeatCount, t.RepeatInterval, t.ResetAfter)
	case *geoql.Assign:
		add(t.Left, t.Right)
	case *geoql.Selector:
		add(t.Props...)
	case *geoql.Range:
		add(t.Low, t.High)
	case *geoql.ParenExpr:
		add(t.Expr)
	case *geoql.BinaryExpr:
		add(t.Left, t.Right)
	case *geoql.ArrayTyp:
		add(t.List...)
	}
	return out
}

// nodes is the whole tree in pre-order.
func nodes(e geoql.Expr) []geoql.Expr {
	out := []geoql.Expr{e}
	for _, c := range children(e) {
		out = append(out, nodes(c)...)
	}
	return out
}

func typeName(e geoql.Expr) string {
	if e == nil {
		return "nil"
	}
	return strings.TrimPrefix(reflect.TypeOf(e).String(), "*geoqlparser.")
}

func shortExpr(e geoql.Expr) string { return typeName(e) + "@" + exprPos(e) }

// scribble changes everything the caller can change in a rule that is its own:
// whoever else holds on to a part of it will notice.
func scribble(rule any) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 3000 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("scribbled")
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				v.SetInt(v.Int()%50 + 3)
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if v.CanSet() {
				v.SetUint(v.Uint()%50 + 3)
			}
		case reflect.Float32, reflect.Float64:
			if v.CanSet() {
				v.SetFloat(v.Float()*0.5 + 1)
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		}
	}
	walk(reflect.ValueOf(rule), 0)
}
