package world

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	geoql "github.com/mmadfox/go-geoql-parser"

	"geosim/plan"
	"geosim/vsim"
)

var (
	exprType  = reflect.TypeOf((*geoql.Expr)(nil)).Elem()
	exprsType = reflect.TypeOf([]geoql.Expr(nil))
	varsType  = reflect.TypeOf([]*geoql.Assign(nil))
	argsType  = reflect.TypeOf(map[string]struct{}(nil))
	tokType   = reflect.TypeOf(geoql.Token(0))
	lineType  = reflect.TypeOf([][2]float64(nil))
	ringsType = reflect.TypeOf([][][2]float64(nil))
	durType   = reflect.TypeOf(time.Duration(0))
	unitType  = reflect.TypeOf(geoql.Unit(0))
	signType  = reflect.TypeOf(geoql.Sign(0))
)

// slot is a place in a rule that a program can assign to.
type slot struct {
	path string
	v    reflect.Value
}

// slots lists the assignable places of a rule in source order.
func slots(rule any) []slot {
	var out []slot
	seen := map[uintptr]bool{}
	var walk func(path string, v reflect.Value, depth int)
	walk = func(path string, v reflect.Value, depth int) {
		if depth > 1000 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if v.CanSet() && v.Type() == exprType {
				out = append(out, slot{path, v})
			}
			if !v.IsNil() {
				walk(path, v.Elem(), depth+1)
			}
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(path, v.Elem(), depth+1)
				delete(seen, v.Pointer())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() && f.Type != posType {
					walk(path+"."+f.Name, v.Field(i), depth+1)
				}
			}
		case reflect.Slice, reflect.Array:
			if v.CanSet() && (v.Type() == exprsType || v.Type() == varsType || v.Type() == lineType || v.Type() == ringsType) {
				out = append(out, slot{path, v})
			}
			for i := 0; i < v.Len(); i++ {
				walk(path+"["+strconv.Itoa(i)+"]", v.Index(i), depth+1)
			}
		case reflect.Map:
			if v.Type() == argsType {
				out = append(out, slot{path, v})
			}
		case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
			if v.CanSet() {
				out = append(out, slot{path, v})
			}
		}
	}
	walk("", reflect.ValueOf(rule), 0)
	return out
}

var editOps = []geoql.Token{geoql.AND, geoql.OR, geoql.EQL, geoql.GTR, geoql.LEQ, geoql.IN, geoql.NOT_IN, geoql.ADD, geoql.MUL, geoql.INTERSECTS, geoql.NEARBY}

// literal is a new expression that is in no rule yet.
func literal(n uint64) geoql.Expr {
	switch n % 8 {
	case 0:
		return &geoql.IntTyp{Val: int(n>>8) % 1000}
	case 1:
		return &geoql.BooleanTyp{Val: n>>8&1 == 0}
	case 2:
		return &geoql.StringTyp{Val: "new" + strconv.Itoa(int(n>>8)%50)}
	case 3:
		return &geoql.FloatTyp{Val: float64(n>>8%4000) / 8}
	case 4:
		return &geoql.Ref{ID: plan.DictNames[int(n>>8)%len(plan.DictNames)]}
	case 5:
		return &geoql.PercentTyp{Val: float64(n >> 8 % 100)}
	case 6:
		return &geoql.DurationTyp{Val: time.Duration(n>>8%5000) * time.Second}
	}
	return &geoql.Selector{Ident: plan.DictNames[int(n>>8)%len(plan.DictNames)], Args: map[string]struct{}{}, Wildcard: true}
}

// edit changes one thing in the rule and says what. Only places whose path begins
// with the returned one have changed.
func edit(rule geoql.Statement, seed uint64) (what, path string) {
	n := vsim.Mix(seed, 0xed17)
	tr, _ := rule.(*geoql.Trigger)
	if tr != nil && n%9 == 0 { // a new variable
		names := []string{"added", "extra", "v", "a"}
		for _, v := range tr.Vars {
			names = append(names, v.Left.Val)
		}
		name := names[int(n>>9)%len(names)]
		err := tr.SetVar(&geoql.Assign{Left: &geoql.Ident{Val: name}, Right: literal(n >> 20)})
		return "SetVar " + name + " " + errText(err), ".Vars"
	}
	if tr != nil && n%5 == 2 && len(tr.Vars) > 0 { // the variables, as a program would that edits them
		k := len(tr.Vars)
		i, j := int(n>>9)%k, int(n>>17)%k
		var refs []string
		for _, e := range nodes(tr) {
			if r, ok := e.(*geoql.Ref); ok {
				refs = append(refs, r.ID)
			}
		}
		switch m := n >> 25; {
		case m%4 == 0 && len(refs) > 0:
			tr.Vars[i].Left.Val = refs[int(m>>2)%len(refs)]
		case m%4 == 0:
			tr.Vars[i].Left.Val = "renamed"
		case m%4 == 1:
			tr.Vars[i].Left.Val, tr.Vars[j].Left.Val = tr.Vars[j].Left.Val, tr.Vars[i].Left.Val
		case m%4 == 2:
			tr.Vars[i] = &geoql.Assign{Left: &geoql.Ident{Val: tr.Vars[j].Left.Val}, Right: literal(m >> 2)}
		default:
			tr.Vars[i].Right = literal(m >> 2)
		}
		return "changed the variables", ".Vars"
	}
	all := slots(rule)
	if tr != nil && n%5 == 1 { // near the root
		var top []slot
		for _, s := range all {
			if strings.Count(s.path, ".") <= 1 {
				top = append(top, s)
			}
		}
		all = top
	}
	if len(all) == 0 {
		return "nothing", ""
	}
	s := all[int(n>>9%uint64(len(all)))]
	v := s.v
	m := n >> 33
	switch {
	case v.Type() == exprType:
		if v.IsNil() && m%3 != 0 {
			return "nothing", ""
		}
		optional := strings.HasPrefix(s.path, ".Repeat") || strings.HasPrefix(s.path, ".Reset")
		switch {
		case optional && m%3 == 1:
			v.Set(reflect.Zero(exprType))
		case s.path == ".RepeatInterval" || s.path == ".ResetAfter":
			v.Set(reflect.ValueOf(&geoql.DurationTyp{Val: time.Duration(m%500) * time.Second}))
		case s.path == ".RepeatCount":
			v.Set(reflect.ValueOf(&geoql.IntTyp{Val: int(m % 100)}))
		case v.IsNil():
			return "nothing", ""
		case m%3 == 1:
			v.Set(reflect.ValueOf(&geoql.ParenExpr{Expr: v.Interface().(geoql.Expr)}))
		case m%3 == 2:
			v.Set(reflect.ValueOf(&geoql.BinaryExpr{Op: editOps[int(m>>3)%len(editOps)], Left: v.Interface().(geoql.Expr), Right: literal(m >> 7)}))
		default:
			v.Set(reflect.ValueOf(literal(m >> 3)))
		}
		return "replaced " + s.path, s.path
	case v.Type() == exprsType:
		switch k := v.Len(); {
		case m%3 == 0 && k > 1:
			v.Set(v.Slice(0, k-1))
		case m%3 == 1 && k > 1:
			a, b := v.Index(0).Interface(), v.Index(k-1).Interface()
			v.Index(0).Set(reflect.ValueOf(b))
			v.Index(k - 1).Set(reflect.ValueOf(a))
		default:
			v.Set(reflect.Append(v, reflect.ValueOf(literal(m>>3))))
		}
		return "changed the list " + s.path, s.path
	case v.Type() == lineType:
		if m%3 == 0 && v.Len() > 2 {
			v.Set(v.Slice(0, v.Len()-1))
		} else {
			v.Set(reflect.Append(v, reflect.ValueOf([2]float64{float64(m >> 3 % 90), float64(m >> 11 % 90)})))
		}
		return "changed the points " + s.path, s.path
	case v.Type() == ringsType:
		if m%3 == 0 && v.Len() > 1 {
			v.Set(v.Slice(0, v.Len()-1))
		} else {
			v.Set(reflect.Append(v, reflect.ValueOf([][2]float64{{1, 2}, {3, float64(m >> 3 % 90)}, {1, 2}})))
		}
		return "changed the rings " + s.path, s.path
	case v.Type() == varsType:
		k := v.Len()
		if k == 0 {
			return "nothing", ""
		}
		i := int(m>>3) % k
		v.Set(reflect.AppendSlice(v.Slice3(0, i, i), v.Slice(i+1, k)))
		return "removed variable " + strconv.Itoa(i), ".Vars"
	case v.Kind() == reflect.Map:
		if v.IsNil() {
			if !v.CanSet() {
				return "nothing", ""
			}
			v.Set(reflect.ValueOf(map[string]struct{}{}))
		}
		args := v.Interface().(map[string]struct{})
		if len(args) > 0 && m%3 == 0 { // one for another
			var ks []string
			for k := range args {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			delete(args, ks[int(m>>3)%len(ks)])
			args["instead"+strconv.Itoa(int(m>>3)%20)] = struct{}{}
		} else if len(args) > 0 && m%3 == 1 {
			var ks []string
			for k := range args {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			delete(args, ks[int(m>>3)%len(ks)])
		} else {
			args["added"+strconv.Itoa(int(m>>3)%20)] = struct{}{}
		}
		return "changed the arguments " + s.path, s.path
	case v.Type() == tokType:
		if !strings.HasSuffix(s.path, ".Op") {
			return "nothing", ""
		}
		v.SetInt(int64(editOps[int(m)%len(editOps)]))
	case v.Type() == durType:
		v.SetInt(int64(m % 100_000 * uint64(time.Second)))
	case v.Type() == unitType || v.Type() == signType:
		if v.CanInt() {
			v.SetInt(1 + v.Int()%3)
		} else {
			v.SetUint(1 + v.Uint()%3)
		}
	case v.Kind() == reflect.Bool:
		v.SetBool(!v.Bool())
	case v.Kind() == reflect.String:
		v.SetString([]string{"changed", "other", "speed", "flag", "x"}[m%5])
	case v.CanInt():
		v.SetInt(1 + (v.Int()+int64(m%7))%6)
	case v.CanUint():
		v.SetUint(1 + (v.Uint()+m%7)%6)
	case v.CanFloat():
		v.SetFloat(v.Float() + 0.25*float64(1+m%4))
	}
	return "set " + s.path, s.path
}

// contents maps every place of the rule to what is there.
func contents(rule any) map[string]string {
	out := map[string]string{}
	for _, s := range slots(rule) {
		switch {
		case s.v.Type() == exprType:
			out[s.path] = typeName(exprOf(s.v))
		case s.v.Kind() == reflect.Slice:
			out[s.path] = strconv.Itoa(s.v.Len())
		case s.v.Kind() == reflect.Map:
			out[s.path] = dump(s.v.Interface(), false)
		default:
			out[s.path] = fmt.Sprint(s.v.Interface())
		}
	}
	return out
}

func exprOf(v reflect.Value) geoql.Expr {
	e, _ := v.Interface().(geoql.Expr)
	return e
}

// editOnce makes one edit, or a few, and sees to it that nothing else in the rule changes.
func editOnce(rule geoql.Statement, seed uint64) (string, *Violation) {
	n := 1
	if seed%3 == 0 { // several at once
		n = 2 + int(seed/3%3)
	}
	all := ""
	for i := 0; i < n; i++ {
		what, v := oneEdit(rule, seed+uint64(i)<<40)
		if v != nil {
			return what, v
		}
		all += what + "; "
	}
	return all, nil
}

func oneEdit(rule geoql.Statement, seed uint64) (string, *Violation) {
	before := contents(rule)
	what, path := edit(rule, seed)
	if path != "" {
		after := contents(rule)
		for p, x := range before {
			if y := after[p]; !strings.HasPrefix(p, path) && x != y {
				return what, violation("shared", "the program %s, and %s of the same rule changed from %s to %s", what, p, clip(x), clip(y))
			}
		}
	}
	return what, nil
}

// aliased finds two places of a new rule that are one, so that a change of
// one of them changes the other.
func aliased(rule any) *Violation {
	type key struct {
		at uintptr
		t  reflect.Type
	}
	seen := map[key]string{}
	for _, s := range slots(rule) {
		var at uintptr
		switch {
		case s.v.Kind() == reflect.Map:
			at = s.v.Pointer()
		case s.v.CanAddr():
			at = s.v.Addr().Pointer()
		}
		if at == 0 {
			continue
		}
		k := key{at, s.v.Type()}
		if p, ok := seen[k]; ok {
			return violation("shared", "%s and %s of the rule are one value: a program that changes one changes the other", p, s.path)
		}
		seen[k] = s.path
	}
	return nil
}

// edited is the rule with its edits, and what the calls on it return.
func (env *Env) edited(op plan.Op, st *Stats) string {
	rule, err := geoql.Parse(plan.TextBytes(op.Text, op.Hex))
	if err != nil {
		return rejected
	}
	var b strings.Builder
	for _, e := range op.Edits {
		what, v := editOnce(rule, e)
		if v != nil {
			return v.Detail
		}
		b.WriteString(what + "\n")
	}
	for _, sub := range op.Uses() {
		b.WriteString(env.execOn(rule, sub, st, nil) + "\n")
	}
	return b.String() + dump(rule, true)
}

// keptRule is a rule that the program keeps.
type keptRule struct {
	rule geoql.Statement
	op   plan.Op // with all edits so far
	dump string
	log  string // what the edits said
}

// runC25 is a program that edits rules, uses them in between, and keeps them.
func (env *Env) runC25(op plan.Op, ts *taskState) *Violation {
	if op.Kind != "edits" {
		if v := env.golden(ts, op); v != nil {
			return v
		}
		return ts.unchanged("another call")
	}
	rule, err := geoql.Parse(plan.TextBytes(op.Text, op.Hex))
	if err != nil {
		ts.skipped++
		return nil
	}
	if v := aliased(rule); v != nil {
		return v
	}
	h := &keptRule{rule: rule}
	prefixes := op.Prefixes()
	for i, p := range prefixes {
		if i > 0 {
			what, v := editOnce(rule, op.Edits[i-1])
			if v != nil {
				return v
			}
			ts.st.fault("edit")
			h.log += what + "\n"
		}
		h.op = p
		if v := env.again(ts, h); v != nil {
			return v
		}
		h.dump = dump(rule, true)
		if v := ts.unchanged("an edit of another rule"); v != nil {
			return v
		}
		if op.Also && i == 0 { // and the same text is parsed again in between
			twin, err := geoql.Parse(plan.TextBytes(op.Text, op.Hex))
			if err != nil {
				return violation("differs", "the same text is accepted once and then rejected: %v", err)
			}
			ts.held = append(ts.held, &keptRule{rule: twin, op: p, dump: dump(twin, true)})
		}
	}
	ts.held = append(ts.held, h)
	if len(ts.held) > 6 {
		ts.held = ts.held[1:]
	}
	return nil
}

// again makes the calls on a rule and compares what they return.
func (env *Env) again(ts *taskState, h *keptRule) *Violation {
	got := h.log
	for _, sub := range h.op.Uses() {
		got += env.execOn(h.rule, sub, ts.st, nil) + "\n"
	}
	return env.compare(ts, h.op, got+dump(h.rule, true))
}

// unchanged sees to it that the rules which are kept are as they were.
func (ts *taskState) unchanged(by string) *Violation {
	for _, h := range ts.held {
		if now := dump(h.rule, true); now != h.dump {
			return violation("shared", "%s changed a rule the program had kept: %s", by, diffAt(now, h.dump))
		}
	}
	return nil
}

// heldAgain uses the rules which were kept once more.
func (env *Env) heldAgain(ts *taskState) (v *Violation) {
	defer func() {
		e := recover()
		if vsim.Hung() {
			v = violation("hang", "using a kept rule again does not end")
		} else if e != nil {
			v = violation("panic", "using a kept rule again: %v", e)
		}
	}()
	for _, h := range ts.held {
		if v := env.again(ts, h); v != nil {
			return v
		}
	}
	return ts.unchanged("using them")
}
