package plan

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
)

// bigs are the things a rule can have unusually much of.
var bigs = []string{"args", "props", "array", "vars", "terms", "depth", "sum", "ring", "list", "rings", "digits"}

// much is the number of them, if it is these that there is much of; once in a rule.
func (g *RuleGen) much(what string, n int) int {
	if g.big != what {
		return n
	}
	g.big = ""
	return n + Pick(g.Rng, 5, 12, 30, 60, 100, 250) + g.Int(8)
}

// RuleGen writes rules of the documented language.
type RuleGen struct {
	*Rng
	vars   []string
	varTyp []string
	Check  bool // stay in the part of the language the type checker has opinions about
	Small  bool
	depth  int
	big    string // what there is unusually much of
	twins  bool   // the same value several times
	seen   map[string]string
}

// again is s, or what the last one of its kind was.
func (g *RuleGen) again(kind, s string) string {
	if !g.twins {
		return s
	}
	if t, ok := g.seen[kind]; ok && g.P(50) {
		return t
	}
	if g.seen == nil {
		g.seen = map[string]string{}
	}
	g.seen[kind] = s
	return s
}

var selNames = []string{"speed", "tracker_speed", "coords", "idx", "Tracker_Point1", "temp", "w", "_x9", "größe", "a"}

// DictNames are the selector names that dictionaries know about.
var DictNames = []string{"speed", "idx", "name", "flag", "temp", "coords", "ints", "nums", "strs"}

// dictTypes are the types these names usually have.
var dictTypes = map[string]int{"speed": 2, "idx": 1, "name": 3, "flag": 4, "temp": 2, "coords": 6, "ints": 5, "nums": 6, "strs": 7}

func (g *RuleGen) ws() string {
	switch g.Int(12) {
	case 0:
		return "\n"
	case 1:
		return "\t "
	case 2:
		return "  "
	}
	return " "
}

func (g *RuleGen) kw(s string) string {
	switch g.Int(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (g *RuleGen) intLit() string {
	switch g.Int(8) {
	case 0:
		return fmt.Sprint(g.Int(3))
	case 1:
		return fmt.Sprint(g.U64() >> (2 + g.N(30)))
	case 2:
		if n := g.much("digits", 0); n > 0 {
			return strings.Repeat("0", n) + "7"
		}
		return "9223372036854775807"
	case 3:
		return "0" + fmt.Sprint(g.Int(100))
	}
	return fmt.Sprint(g.Int(1000))
}

func (g *RuleGen) floatLit() string {
	switch g.Int(8) {
	case 0:
		return fmt.Sprintf("%d.0", g.Int(100))
	case 1:
		return fmt.Sprintf("%d.", g.Int(100))
	case 2:
		return fmt.Sprintf("0.%0*d", 1+g.Int(12), g.Int(10))
	case 3:
		return fmt.Sprintf("%d.%d", g.U64()>>(1+g.N(40)), g.U64()>>(1+g.N(50)))
	case 4:
		return fmt.Sprintf("%d00000000000000000000000000.5", 1+g.Int(9))
	}
	return fmt.Sprintf("%d.%d", g.Int(500), g.Int(1000))
}

func (g *RuleGen) numLit() string {
	if g.P(50) {
		return g.intLit0()
	}
	return g.floatLit()
}

func (g *RuleGen) intLit0() string { return fmt.Sprint(g.Int(Pick(g.Rng, 3, 100, 5000))) }

func (g *RuleGen) strBody() string {
	var b strings.Builder
	n := g.Int(4)
	if g.P(4) {
		n = 40 + g.Int(80) // around and beyond layout thresholds
		if g.P(20) {
			n = 350 // beyond one buffer
		}
	}
	for i := 0; i < n; i++ {
		b.WriteString(Pick(g.Rng, "abc", "A", " ", `\"`, `\\`, "é", "世", "𝒳", "'", "`", "*", "//", ";", `\n`, "{", "]", "when", "786d9e27-f277", "%", "@", `\x41`, `\u00e9`))
	}
	return b.String()
}

func (g *RuleGen) str() string { return `"` + g.strBody() + `"` }

func (g *RuleGen) sel() string {
	if g.Check {
		if g.P(92) {
			return Pick(g.Rng, DictNames...)
		}
		return Pick(g.Rng, "undeclared", "Speed", "other")
	}
	s := Pick(g.Rng, selNames...)
	if g.P(55) {
		return s
	}
	return g.selWith(s)
}

// selWith is a selector with arguments and properties.
func (g *RuleGen) selWith(s string) string {
	if g.P(70) {
		var args []string
		n := g.Int(5)
		if g.P(12) {
			n += 4 + g.Int(6)
		}
		n = g.much("args", n)
		for i := 0; i < n; i++ {
			switch g.Int(4) {
			case 0:
				args = append(args, fmt.Sprintf(`"dev%d"`, g.Int(30)))
			case 1:
				args = append(args, fmt.Sprintf(`"786d9e27-f277-4d5d-b658-%012d"`, g.Int(1000)))
			case 2:
				args = append(args, g.str())
			default:
				args = append(args, Pick(g.Rng, `"a"`, `"b"`, `"c"`, `"B"`, `""`, `"10"`, `"9"`))
			}
		}
		if g.P(25) { // lengths that add up to about what fits on a line
			args = nil
			for left := 50 + g.Int(34); left > 0; {
				k := 1 + g.Int(left)
				args = append(args, `"`+strings.Repeat(Pick(g.Rng, "a", "b", "c", "d"), k)+`"`)
				left -= k
			}
		}
		if g.P(30) {
			args = append([]string{"*"}, args...)
		}
		s += "{" + strings.Join(args, Pick(g.Rng, ", ", ",", ",\n\t")) + "}"
	}
	if g.P(25) || g.big == "props" {
		var props []string
		for i := g.much("props", g.Range(1, 3)); i > 0; i-- {
			props = append(props, Pick(g.Rng, g.dist(), g.intLit0(), g.str(), g.floatLit(), g.speed(), g.ref(), "true"))
		}
		s += ":" + strings.Join(props, ", ")
	}
	return s
}

func (g *RuleGen) ref() string {
	if len(g.vars) > 0 && g.P(85) {
		return "@" + Pick(g.Rng, g.vars...)
	}
	return "@" + Pick(g.Rng, "nowhere", "Some", "x1")
}

func (g *RuleGen) dist() string {
	return g.numLit() + Pick(g.Rng, "M", "km", "Km", "rkm", " km", "M", "rM")
}
func (g *RuleGen) speed() string { return g.numLit() + Pick(g.Rng, "kph", "Mph", "KPH", "mph", " Kph") }
func (g *RuleGen) temp() string {
	return Pick(g.Rng, "", "+", "-", "- ") + g.numLit() + Pick(g.Rng, "C", "F", "c", "f", " C")
}
func (g *RuleGen) pres() string { return g.numLit() + Pick(g.Rng, "bar", "Bar", "psi", "PSI") }
func (g *RuleGen) pct() string  { return g.numLit() + Pick(g.Rng, "%", "%", " %", "PCT") }
func (g *RuleGen) durInt() string {
	return Pick(g.Rng, fmt.Sprintf("%ds", g.Int(100)), fmt.Sprintf("%dm", g.Int(200)), fmt.Sprintf("%dh", g.Int(50)),
		fmt.Sprintf("%dh%dm%ds", g.Int(50), g.Int(60), g.Int(60)), fmt.Sprintf("%dh%dm", g.Int(9), g.Int(99)),
		fmt.Sprintf("%dms", g.Int(5000)), fmt.Sprintf("%dm%dms", g.Int(50), g.Int(999)), fmt.Sprintf("0s%dus", g.Int(2000)),
		fmt.Sprintf("1s%dns", g.Int(2000)))
}
func (g *RuleGen) dur() string {
	if g.P(70) {
		return g.durInt()
	}
	return fmt.Sprintf("%d.%d%s", g.Int(60), g.Int(1000), Pick(g.Rng, "s", "m", "h", "ms", "h30m"))
}

func (g *RuleGen) calBody(kind string) string {
	switch kind {
	case "date":
		return fmt.Sprintf("%04d-%02d-%02d", g.Range(2022, 2200), g.Range(1, 12), g.Range(1, 31))
	case "time":
		switch g.Int(4) {
		case 0:
			return fmt.Sprintf("%d:%02d%s", g.Range(0, 12), g.Range(0, 59), Pick(g.Rng, "AM", "PM", "am", " pm", "Pm"))
		case 1:
			return fmt.Sprintf("%02d:%02d:%02d", g.Range(0, 24), g.Range(0, 59), g.Range(0, 59))
		case 2:
			return fmt.Sprintf("%d:%02d:%02d%s", g.Range(0, 12), g.Range(0, 59), g.Range(0, 59), Pick(g.Rng, "AM", "PM"))
		}
		return fmt.Sprintf("%02d:%02d", g.Range(0, 24), g.Range(0, 59))
	case "weekday":
		return Pick(g.Rng, "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "sat", "SUN")
	}
	return Pick(g.Rng, "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "dec", "JAN")
}

func (g *RuleGen) calKind() string { return Pick(g.Rng, "date", "time", "weekday", "month") }
func (g *RuleGen) cal1() string {
	k := g.calKind()
	return g.kw(k) + "[" + g.calBody(k) + "]"
}
func (g *RuleGen) calRange() string {
	k := g.calKind()
	return k + "[" + g.calBody(k) + " .. " + g.calBody(k) + "]"
}
func (g *RuleGen) calList() string {
	k := g.calKind()
	s := k + "[" + g.calBody(k)
	for i := g.much("list", g.Range(1, 4)); i > 0; i-- {
		s += Pick(g.Rng, ", ", ",") + g.calBody(k)
	}
	return s + "]"
}

func (g *RuleGen) coord() string {
	return Pick(g.Rng, "", "-", "") + Pick(g.Rng, fmt.Sprint(g.Int(180)), fmt.Sprintf("%d.%d", g.Int(180), g.Int(100000)), "0", "1.10", "0.000001")
}
func (g *RuleGen) pair() string {
	return g.again("pair", "["+g.coord()+Pick(g.Rng, ", ", ",")+g.coord()+"]")
}
func (g *RuleGen) ring() string {
	var p []string
	n := 1 + g.Int(4)
	if g.P(35) {
		n = 4 + g.Int(9)
	}
	n = g.much("ring", n)
	for i := 0; i < n; i++ {
		p = append(p, g.pair())
	}
	return "[" + strings.Join(p, ", ") + "]"
}
func (g *RuleGen) point() string {
	s := "point" + g.pair()
	if g.P(40) {
		s += ":" + g.dist()
	}
	return s
}
func (g *RuleGen) line() string {
	s := "line" + g.ring()
	if g.P(40) {
		s += ":" + g.dist()
	}
	return s
}
func (g *RuleGen) polygon() string {
	var r []string
	for i := g.much("rings", g.Range(1, 3)); i > 0; i-- {
		r = append(r, g.ring())
	}
	return "polygon[" + strings.Join(r, ", ") + "]"
}
func (g *RuleGen) multi() string {
	k := g.Int(3)
	name := []string{"multipoint", "multiline", "multipolygon"}[k]
	var xs []string
	for i := g.much("rings", g.Range(1, 3)); i > 0; i-- {
		xs = append(xs, []func() string{g.point, g.line, g.polygon}[k]())
	}
	return name + "[" + strings.Join(xs, ", ") + "]"
}
func (g *RuleGen) geom() string {
	switch g.Int(6) {
	case 0:
		return g.point()
	case 1:
		return g.line()
	case 2:
		return g.polygon()
	case 3:
		return g.multi()
	case 4:
		var xs []string
		for i := g.much("rings", g.Range(1, 3)); i > 0; i-- {
			xs = append(xs, Pick(g.Rng, g.point, g.line, g.polygon, g.multi)())
		}
		return "collection[" + strings.Join(xs, ", ") + "]"
	}
	return g.point()
}

func (g *RuleGen) boolean() string {
	return Pick(g.Rng, "true", "false", "up", "down", "True", "FALSE")
}

func (g *RuleGen) signed() string { return Pick(g.Rng, "", "", "-", "+") }

func (g *RuleGen) rangeEnd(k int) string { return g.again("end"+strconv.Itoa(k), g.rangeEnd0(k)) }

func (g *RuleGen) rangeEnd0(k int) string {
	switch k {
	case 0:
		return g.signed() + g.intLit0()
	case 1:
		return g.signed() + g.floatLit()
	case 2:
		return g.speed()
	case 3:
		return g.temp()
	case 4:
		return g.pres()
	case 5:
		return g.dist()
	case 6:
		return g.pct()
	case 7:
		return g.durInt()
	case 8:
		return g.cal1()
	case 9:
		return g.ref()
	case 10:
		return "w"
	}
	return g.str()
}

func (g *RuleGen) rng() string {
	k := g.Int(11)
	if g.twins && g.P(40) {
		k = 0
	}
	if g.P(5) || g.twins && g.P(50) {
		end := g.rangeEnd(k)
		return end + " .. " + end
	}
	j := k
	if g.P(12) {
		j = g.Int(12)
	}
	return g.rangeEnd(k) + " .. " + g.rangeEnd(j)
}

func (g *RuleGen) array() string {
	k := g.Int(14)
	var xs []string
	n := g.Int(5)
	if g.P(5) {
		n += 12
	}
	n = g.much("array", n)
	for i := 0; i <= n; i++ {
		if k >= 12 {
			if g.P(30) {
				xs = append(xs, g.calRange())
			} else {
				xs = append(xs, g.rng())
			}
			continue
		}
		if k == 8 {
			k = 2
		}
		xs = append(xs, g.rangeEnd(k))
	}
	return "[" + strings.Join(xs, Pick(g.Rng, ", ", ",")) + "]"
}

func (g *RuleGen) value() string { return g.again("value", g.value0()) }

func (g *RuleGen) value0() string {
	switch g.Int(19) {
	case 0:
		return g.signed() + g.intLit()
	case 1:
		return g.signed() + g.floatLit()
	case 2:
		return g.str()
	case 3:
		return g.speed()
	case 4:
		return g.temp()
	case 5:
		return g.pres()
	case 6:
		return g.dist()
	case 7:
		return g.pct()
	case 8:
		return g.dur()
	case 9:
		return g.cal1()
	case 10:
		return g.calRange()
	case 11:
		return g.calList()
	case 12, 13:
		return g.geom()
	case 14:
		return g.boolean()
	case 15:
		return g.rng()
	case 16:
		return g.array()
	case 17:
		return g.selWith(Pick(g.Rng, selNames...))
	}
	return g.sel()
}

func (g *RuleGen) operand() string {
	if g.Check {
		switch g.Int(16) {
		case 0, 1, 2, 3, 4, 5, 6:
			return g.sel()
		case 7:
			return g.signed() + g.intLit0()
		case 8:
			return Pick(g.Rng, g.floatLit(), g.speed(), g.temp(), g.pct(), g.dist())
		case 9:
			return g.str()
		case 10:
			return g.boolean()
		case 11:
			return Pick(g.Rng, "[1, 2, 3]", "[1.5, 2.5]", `["a", "b"]`, "[idx, idx]", "[@v0, @v1]", "[1 .. 2, 3 .. 4]", "[true, false]", "[flag]")
		case 12:
			return Pick(g.Rng, "1 .. 10", "1.5 .. 2.5", "10Kph .. 20Kph", "speed .. 5", "name .. name", `"a" .. "b"`)
		case 13, 14:
			return g.ref()
		}
		return Pick(g.Rng, g.geom, g.cal1, g.dur)()
	}
	switch g.Int(10) {
	case 0, 1, 2, 3:
		return g.sel()
	case 4:
		return g.ref()
	}
	return g.value()
}

var arith = []string{"+", "-", "*", "/", "rem"}
var cmps = []string{"==", "eq", "not eq", "<", "<=", ">", ">=", "in", "not in", "intersects", "not intersects", "nearby", "not nearby"}

func (g *RuleGen) arithExpr() string {
	s := g.operand()
	n := g.much("sum", 0)
	for n > 0 || g.P(22) {
		n--
		s += g.ws() + g.kw(Pick(g.Rng, arith...)) + g.ws() + g.term()
	}
	return s
}

func (g *RuleGen) term() string {
	if g.depth < 3 && g.P(15) {
		return g.paren()
	}
	return g.operand()
}

func (g *RuleGen) paren() string {
	g.depth++
	defer func() { g.depth-- }()
	switch g.Int(4) {
	case 0:
		return "(" + g.operand() + ")"
	case 1:
		return "(" + g.cmp() + ")"
	case 2:
		return "(" + g.operand() + " " + Pick(g.Rng, arith...) + " " + g.operand() + ")"
	}
	return "(" + g.cond() + ")"
}

func (g *RuleGen) cmp() string {
	if g.depth < 3 && g.P(15) {
		return g.paren()
	}
	if g.Check && g.P(60) {
		return g.typedCmp()
	}
	l := g.arithExpr()
	if g.P(6) {
		return l
	}
	op := g.kw(Pick(g.Rng, cmps...))
	r := g.arithExpr()
	return l + g.ws() + op + g.ws() + r
}

// typedCmp is a comparison whose operands usually suit it.
func (g *RuleGen) typedCmp() string {
	num := func() string {
		s := Pick(g.Rng, "speed", "idx", "temp", "speed", "idx", "coords", g.intLit0(), g.floatLit(), g.temp(), g.ref())
		for g.P(25) {
			s += " " + Pick(g.Rng, arith...) + " " + Pick(g.Rng, "speed", "idx", "temp", g.intLit0(), g.floatLit())
		}
		return s
	}
	geo := func() string {
		return Pick(g.Rng, g.point(), g.line(), g.polygon(), g.multi(), "collection["+g.point()+", "+g.line()+"]", g.ref(), "coords")
	}
	eq := Pick(g.Rng, "==", "eq", "not eq")
	in := Pick(g.Rng, "in", "not in")
	k := g.Int(9)
	if len(g.vars) > 0 && g.P(35) {
		k = 9
	}
	switch k {
	case 9:
		a, b := g.ref(), Pick(g.Rng, g.ref(), "speed", "name", "flag", "idx", "temp", g.intLit0(), g.str(), g.floatLit(), "true")
		if g.P(30) {
			a, b = b, a
		}
		return a + " " + Pick(g.Rng, "<", ">=", eq, eq, eq, in) + " " + b
	case 0, 1:
		return num() + " " + Pick(g.Rng, "<", "<=", ">", ">=", eq) + " " + num()
	case 2:
		return Pick(g.Rng, "name", "strs", g.str(), "name + "+g.str()) + " " + eq + " " + Pick(g.Rng, "name", "strs", g.str())
	case 3:
		return Pick(g.Rng, "flag", "true", "speed > 5") + " " + Pick(g.Rng, eq, "and", "or") + " " + Pick(g.Rng, "flag", "false", "idx < 5")
	case 4:
		return num() + " " + in + " " + Pick(g.Rng, "ints", "nums", "[1, 2]", "[1.5, 2.5]", "[speed, temp]", "[idx]", "1 .. 9", "0.5 .. 1.5", "idx .. 7", geo())
	case 5:
		return Pick(g.Rng, "name", "strs", g.str()) + " " + in + " " + Pick(g.Rng, "strs", `["a", "b"]`, "[name]", "ints")
	case 6:
		return Pick(g.Rng, "ints", "nums", "strs", "[1, 2]", "[1.5]", `["a"]`) + " " + eq + " " + Pick(g.Rng, "ints", "nums", "strs", "[3]", "[3.5]", `["b"]`, geo())
	case 7:
		return Pick(g.Rng, "flag", "idx > 3", g.ref()) + " " + Pick(g.Rng, "and", "or") + " " + Pick(g.Rng, "flag", "name == \"x\"", g.ref())
	}
	return Pick(g.Rng, geo(), "coords", "speed") + " " + Pick(g.Rng, "nearby", "intersects", "not nearby", "not intersects", in, eq) + " " + geo()
}

func (g *RuleGen) cond() string {
	s := g.cmp()
	n := g.Int(4)
	if g.Small || g.Check && g.P(60) {
		n = g.Int(2)
	}
	if g.P(3) {
		n += 8
	}
	if g.depth == 0 {
		n = g.much("terms", n)
	}
	if d := g.much("depth", 0); d > 0 && g.depth == 0 {
		g.depth = 3
		for ; d > 0; d-- {
			switch g.Int(5) {
			case 0:
				s = "(" + s + " " + Pick(g.Rng, "and", "or") + " " + g.cmp() + ")"
			case 1:
				s = "(" + g.cmp() + g.ws() + Pick(g.Rng, "and", "or") + " " + s + ")"
			case 2:
				s = "(" + g.operand() + " " + Pick(g.Rng, arith...) + " " + s + ")"
			default:
				s = "(" + s + ")"
			}
		}
		g.depth = 0
	}
	for i := 0; i < n; i++ {
		s += g.ws() + g.kw(Pick(g.Rng, "and", "or")) + g.ws() + g.cmp()
	}
	return s
}

// Rule writes one rule.
func (g *RuleGen) Rule() string {
	var b strings.Builder
	g.vars = nil
	g.depth = 0
	g.big = ""
	if g.P(6) {
		g.big = Pick(g.Rng, bigs...)
	}
	if g.P(92) {
		b.WriteString(g.kw("trigger") + g.ws())
	} else {
		b.WriteString(g.kw("when") + g.ws() + g.cond())
		g.tail(&b)
		return b.String()
	}
	nv := 0
	if g.P(65) {
		nv = 1 + g.Int(4)
		if g.P(16) {
			nv += 3 + g.Int(4)
		}
	}
	if g.Small && nv > 2 && g.P(55) {
		nv = 2
	}
	nv = g.much("vars", nv)
	if nv > 0 {
		b.WriteString(g.kw("set") + g.ws())
		for i := 0; i < nv; i++ {
			name := fmt.Sprintf("v%d", i)
			if g.P(20) {
				name = fmt.Sprintf("%s%d", Pick(g.Rng, "Some_", "später", "X"), i)
			}
			v := g.value()
			if g.P(10) {
				v = "(" + g.intLit0() + " " + Pick(g.Rng, arith...) + " " + g.intLit0() + ")"
			}
			b.WriteString(name + Pick(g.Rng, " = ", "=", "= ") + v + Pick(g.Rng, ";", ";", "; ") + g.ws())
			g.vars = append(g.vars, name)
		}
	}
	b.WriteString(g.kw("when") + g.ws() + g.cond())
	g.tail(&b)
	return b.String()
}

func (g *RuleGen) tail(b *strings.Builder) {
	if g.P(45) {
		b.WriteString(g.ws() + g.kw("repeat"))
		if g.P(95) {
			fmt.Fprintf(b, " %d", g.Int(50))
			if g.P(60) {
				b.WriteString(" every " + g.durInt())
			}
		}
	}
	if g.P(45) {
		b.WriteString(g.ws() + g.kw("reset") + " after " + g.dur())
	}
	if g.P(30) {
		b.WriteString(Pick(g.Rng, "\n", " ", "\t\n"))
	}
}

// GenRule writes the rule of a seed.
func GenRule(r *Rng, check, small bool) string {
	g := &RuleGen{Rng: r, Check: check, Small: small, twins: r.P(40)}
	return g.Rule()
}

// GenDict makes a dictionary over the known names.
func GenDict(r *Rng) map[string]int {
	d := map[string]int{}
	for _, n := range DictNames {
		if r.P(85) {
			d[n] = dictTypes[n]
			if r.P(45) {
				d[n] = 1 + r.Int(7)
			}
			if r.P(3) {
				d[n] = Pick(r, 0, -1, 8, 100) // not a type at all
			}
		}
	}
	for r.P(25) { // other spellings
		n := Pick(r, DictNames...)
		if r.P(50) {
			delete(d, n)
		}
		d[Pick(r, strings.ToUpper(n), strings.ToUpper(n[:1])+n[1:], n+" ", " "+n, "@"+n)] = 1 + r.Int(7)
	}
	return d
}

// pieces cuts a rule into words, numbers, strings, single characters and white space.
func pieces(text string) []string {
	class := func(c byte) int {
		switch {
		case c <= ' ':
			return 1
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_', c >= 0x80:
			return 2
		}
		return 0
	}
	var out []string
	for i := 0; i < len(text); {
		j := i + 1
		if text[i] == '"' {
			for j < len(text) && text[j] != '"' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(text))
		} else if k := class(text[i]); k != 0 {
			for j < len(text) && class(text[j]) == k {
				j++
			}
		}
		out = append(out, text[i:j])
		i = j
	}
	return out
}

var strays = []string{"when", "set", "trigger", "repeat", "every", "reset", "after", "and", "not", "in", "rem", "true", "up", "multipoint",
	"date", "time", "weekday", "month", "point", "line", "polygon", "collection", "5", "1.5", "99999999999999999999", "1e5", "x", "@v0", "@", "v0",
	"2022-13-01", "2022-02-30", "25:00", "12:61", "13:00PM", "0:00:99", "Mun", "Jax", "-5", "+", "-", "*", "/", "%", "M", "km", "kph", "bar", "C", "s", "m30s",
	";", ",", ":", "=", "==", "!=", "<", ">=", "..", ".", "(", ")", "[", "]", "{", "}", "\"", "\"a\"", "#", "?", "\x00", "\xff", "世", "//", "/*"}

// GenBadRule writes something that is nearly a rule.
func GenBadRule(r *Rng, small bool) string {
	text := GenRule(r, r.P(20), small)
	if r.P(15) { // a variable twice
		for _, sep := range []string{"; ", ";"} {
			if i := strings.Index(text, "v0"); i >= 0 && strings.Contains(text, "v1") {
				text = strings.Replace(text, "v1", "v0", 1+r.Int(2))
				return text
			} else if j := strings.Index(strings.ToLower(text), "set "); j >= 0 {
				return text[:j+4] + "v0 = 1" + sep + "v0 = " + Pick(r, "2", "@v0", "point[1, 2]") + sep + text[j+4:]
			}
		}
	}
	ps := pieces(text)
	if r.P(20) { // ends in the middle of something
		var at []int
		for i, p := range ps {
			if p[0] >= '0' && p[0] <= '9' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := Pick(r, at...)
			if r.P(60) {
				return strings.Join(ps[:i], "") + Pick(r, "-", "- ", "+", "-", "", "- -") + Pick(r, "", "x", "@", "\"", ")", ";", "when", "'", "99999999999999999999", "1..2", "-5")
			}
			ps[i] = Pick(r, "-", "- ", "+", "") + Pick(r, "x", "when", "\"a", "'", "99999999999999999999", "5 5", "\xff", "(1 + 2)", ".")
			return strings.Join(ps, "")
		}
	}
	for n := 1 + r.Int(2); n > 0 && len(ps) > 0; n-- {
		i := r.Int(len(ps))
		if r.P(70) { // where there is something
			for k := 0; k < 5 && strings.TrimSpace(ps[i]) == ""; k++ {
				i = r.Int(len(ps))
			}
		}
		switch r.Int(7) {
		case 0:
			ps = append(ps[:i:i], ps[i+1:]...)
		case 1:
			ps = append(ps[:i+1:i+1], ps[i:]...)
		case 2:
			j := r.Int(len(ps))
			ps[i], ps[j] = ps[j], ps[i]
		case 3:
			ps = ps[:i+1]
		case 4:
			ps = append(ps[:i:i], append([]string{" " + Pick(r, strays...) + " "}, ps[i:]...)...)
		default:
			ps[i] = Pick(r, strays...)
		}
	}
	return strings.Join(ps, "")
}

var odds = []string{"c", "f", "M", "km", "h", "s", "m", "*", "* ", "@c", "@M", "@x", "@and", "@point", "not", "-", "+", "- -", "(", ")", "((", "))", "[", "]", "{", "}",
	"{*}", "{}", ":", ":*", ",", ";", "..", ". .", ".", "=", "==", "!=", "!", "<", ">", ">=", "/", "*", "+5", "-5", "1.", ".5", "0", "00", "1M", "5M", "- 5C", "+0C",
	"5s", "5h30m", "2ms", "2h5us", "true", "down", "up", "in", "not in", "nearby", "mod", "rem", "and", "or", "intersects", "eq", "not eq",
	"date[2022-01-01]", "time[1:2]", "weekday[Mon .. Tue]", "month[Jan, Feb]", "[1, 2]", "[1 2]", "[[1]]", "[a, b]", "[@a]", "[1 .. 2]", "point[1, 2]", "line[]", "line[[1, 2]]", "polygon[[[1,2]]]", "multipoint[point[1,2]]", "collection[point[1,2]]", ":5M", "point[1,2]:5M", "point[]", "polygon[]", "polygon[[]]",
	"\"\"", "\"a\"", "\"\\\"\"", "a:b", "a{\"x\"}", "a{\"x\"}:1", "A", "trigger", "when", "set", "repeat", "every", "reset", "after", "repeat 1", "reset after 1h", "x", "5", "1 .. 2", "a .. b", "-1 .. -2"}

// GenOddRule writes a rule of which a few words, signs and values were put
// where a person would not put them. What Parse makes of it is its business,
// but what it accepts has to be kept.
func GenOddRule(r *Rng) string {
	text := GenRule(r, r.P(20), r.P(95))
	ps := pieces(text)
	for n := 1 + r.Int(Pick(r, 1, 2, 4, 8)); n > 0 && len(ps) > 0; n-- {
		i := r.Int(len(ps))
		for k := 0; k < 5 && strings.TrimSpace(ps[i]) == ""; k++ {
			i = r.Int(len(ps))
		}
		w := Pick(r, odds...)
		if r.P(50) {
			w = " " + w + " "
		}
		switch r.Int(8) {
		case 0: // lost
			ps = append(ps[:i:i], ps[i+1:]...)
		case 1: // twice
			ps = append(ps[:i+1:i+1], ps[i:]...)
		case 2: // exchanged
			j := r.Int(len(ps))
			ps[i], ps[j] = ps[j], ps[i]
		case 3, 4: // added
			ps = append(ps[:i:i], append([]string{w}, ps[i:]...)...)
		default:
			ps[i] = w
		}
	}
	return strings.Join(ps, "")
}

// spellings writes some names of the rule with capitals, and declares some of them so.
func spellings(r *Rng, text string, dict map[string]int) (string, map[string]int) {
	ps := pieces(text)
	for i, p := range ps {
		typ, known := dictTypes[strings.ToLower(p)]
		if known && r.P(15) {
			p = Pick(r, strings.ToUpper(p), strings.ToUpper(p[:1])+p[1:])
			ps[i] = p
		}
		if strings.ToLower(p) == p || p[0] == '"' || !r.P(40) {
			continue
		}
		if !known {
			typ = 1 + r.Int(7)
		}
		dict[p] = typ
		if r.P(50) {
			delete(dict, strings.ToLower(p))
		}
	}
	return strings.Join(ps, ""), dict
}

// everNew marks names and strings that are to be others in each repetition.
func everNew(r *Rng, text string) string {
	ps := pieces(text)
	for i, p := range ps {
		if i > 0 && ps[i-1] == "@" || !r.P(60) {
			continue
		}
		switch _, known := dictTypes[p]; {
		case known || slices.Contains(selNames, p):
			ps[i] = p + "0000000"
		case len(p) > 1 && p[0] == '"' && p[len(p)-1] == '"':
			ps[i] = `"0000000` + p[1:]
		}
	}
	return strings.Join(ps, "")
}
