// Command instr copies a Go module and rewrites the copy so that it runs under
// the simulator: a scheduling point before every statement, hash-table walks in
// simulator order, and sync, goroutines, clocks and randomness from the simulator.
// The rewriting keeps line numbers.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath, Dir, Name, Export string
	GoFiles                       []string
	Standard                      bool
	Imports                       []string
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

type report struct {
	Sites       []siteInfo     `json:"sites"`
	MapRanges   int            `json:"map_ranges_seamed"`
	MapUnseamed []string       `json:"map_ranges_unseamed"`
	Seams       map[string]int `json:"seams"`
	Files       int            `json:"files"`
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	dst := flag.String("dst", "", "where the instrumented copy goes")
	rep := flag.String("report", "", "where the site table goes")
	flag.BoolVar(&plain, "plain", false, "leave channels and timers as they are")
	flag.Parse()
	if err := copyTree(*src, *dst); err != nil {
		fatal("copy: %v", err)
	}
	pkgs, exports := list(*dst)
	r := &report{Seams: map[string]int{}}
	for _, p := range pkgs {
		instrument(p, *dst, exports, r)
	}
	b, _ := json.Marshal(r)
	if err := os.WriteFile(*rep, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

var plain bool

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if d.Name() == ".git" || d.Name() == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !d.Type().IsRegular() || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.Create(filepath.Join(dst, rel))
		if err != nil {
			return err
		}
		if _, err = io.Copy(out, in); err != nil {
			return err
		}
		return out.Close()
	})
}

func list(dir string) ([]*pkgInfo, map[string]string) {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Imports", "./...")
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []*pkgInfo
	exports := map[string]string{}
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Name != "main" {
			q := p
			pkgs = append(pkgs, &q)
		}
	}
	return pkgs, exports
}

func instrument(p *pkgInfo, root string, exports map[string]string, r *report) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(name)
		if err != nil {
			fatal("%v", err)
		}
		af, err := parser.ParseFile(fset, name, b, parser.ParseComments)
		if err != nil {
			fatal("parse: %v", err)
		}
		files = append(files, af)
		names = append(names, name)
		srcs[name] = b
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}
	for i, af := range files {
		rel, _ := filepath.Rel(root, names[i])
		rw := &rewriter{fset: fset, info: info, src: srcs[names[i]], file: af, rel: rel, r: r}
		out := rw.run()
		if err := os.WriteFile(names[i], out, 0o644); err != nil {
			fatal("%v", err)
		}
		r.Files++
	}
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	rel   string
	r     *report
	edits []edit
	fn    string
	tmp   int
	tail  []string
	pairs map[ast.Expr]bool // receive operations that give two values
}

func (w *rewriter) off(p token.Pos) int { return w.fset.Position(p).Offset }

func (w *rewriter) insert(at token.Pos, text string) { w.insertOff(w.off(at), text) }

func (w *rewriter) insertOff(off int, text string) {
	w.edits = append(w.edits, edit{off, off, text, len(w.edits)})
}

func (w *rewriter) replace(from, to token.Pos, text string) {
	w.edits = append(w.edits, edit{w.off(from), w.off(to), text, len(w.edits)})
}

func (w *rewriter) text(n ast.Node) string { return string(w.src[w.off(n.Pos()):w.off(n.End())]) }

func (w *rewriter) site(pos token.Pos) string {
	id := len(w.r.Sites) + 1
	w.r.Sites = append(w.r.Sites, siteInfo{id, w.rel, w.fset.Position(pos).Line, w.fn})
	return fmt.Sprintf("vsim__.Y(%d); ", id)
}

var swapImports = map[string]string{
	"sync":         "geosim/vsim/vsync",
	"maps":         "geosim/vsim/vmaps",
	"math/rand":    "geosim/vsim/vrand",
	"math/rand/v2": "geosim/vsim/vrand",
}

var timeFuncs = map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After",
	"Timer": "Timer", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "Tick"}

var timerFuncs = map[string]bool{"After": true, "Timer": true, "NewTimer": true, "AfterFunc": true, "Ticker": true, "NewTicker": true, "Tick": true}

// what a program may ask about where it runs
var placeFuncs = map[string]string{
	"os.Getenv": "os.ErrExist", "os.LookupEnv": "os.ErrExist", "os.Environ": "os.ErrExist", "os.ExpandEnv": "os.ErrExist",
	"os.Hostname": "os.ErrExist", "os.Getwd": "os.ErrExist", "os.Getpid": "os.ErrExist", "os.Getppid": "os.ErrExist", "os.Getuid": "os.ErrExist",
	"runtime.NumCPU": "runtime.GC", "runtime.GOMAXPROCS": "runtime.GC", "runtime.NumGoroutine": "runtime.GC",
}

// where goroutines of the standard library or real time would be involved
var rareFuncs = map[string][2]string{
	"io.Pipe": {"Pipe", "EOF"}, "io.PipeReader": {"PipeReader", "EOF"}, "io.PipeWriter": {"PipeWriter", "EOF"},
	"context.WithTimeout": {"WithTimeout", "Canceled"}, "context.WithDeadline": {"WithDeadline", "Canceled"}, "context.AfterFunc": {"ContextAfterFunc", "Canceled"},
}

func (w *rewriter) run() []byte {
	w.insert(w.file.Name.End(), `; import vsim__ "geosim/vsim"`)
	w.tail = append(w.tail, "var _ = vsim__.Y")
	for _, im := range w.file.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		if to, ok := swapImports[path]; ok {
			name := ""
			if im.Name == nil {
				name = path[strings.LastIndex(path, "/")+1:]
				if path == "math/rand/v2" {
					name = "rand"
				}
				name += " "
			}
			w.replace(im.Path.Pos(), im.Path.End(), name+`"`+to+`"`)
			w.r.Seams[path]++
		}
	}
	w.findPairs()
	for _, d := range w.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			w.fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				w.fn = w.text(fd.Recv.List[0].Type) + "." + w.fn
			}
			if fd.Body != nil {
				w.node(fd.Body)
			}
			continue
		}
		w.fn = "(package)"
		w.node(d)
	}
	return []byte(w.apply(0, len(w.src)) + "\n" + strings.Join(w.tail, "\n") + "\n")
}

// apply makes the edits within a stretch of the source.
func (w *rewriter) apply(at, end int) string {
	sort.SliceStable(w.edits, func(i, j int) bool {
		if w.edits[i].from != w.edits[j].from {
			return w.edits[i].from < w.edits[j].from
		}
		return w.edits[i].seq < w.edits[j].seq
	})
	var out bytes.Buffer
	for _, e := range w.edits {
		if e.from < at {
			fatal("%s: overlapping edits near offset %d (%q)", w.rel, e.from, e.text)
		}
		out.Write(w.src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(w.src[at:end])
	return out.String()
}

// render is the rewritten text of an expression.
func (w *rewriter) render(e ast.Expr) string {
	sub := &rewriter{fset: w.fset, info: w.info, src: w.src, file: w.file, rel: w.rel, r: w.r, fn: w.fn, tmp: w.tmp, pairs: w.pairs}
	sub.node(e)
	w.tmp = sub.tmp
	w.tail = append(w.tail, sub.tail...)
	return sub.apply(w.off(e.Pos()), w.off(e.End()))
}

// findPairs notes the receive operations that give two values.
func (w *rewriter) findPairs() {
	w.pairs = map[ast.Expr]bool{}
	two := func(n int, rhs []ast.Expr) {
		if n == 2 && len(rhs) == 1 {
			w.pairs[ast.Unparen(rhs[0])] = true
		}
	}
	ast.Inspect(w.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			two(len(x.Lhs), x.Rhs)
		case *ast.ValueSpec:
			two(len(x.Names), x.Values)
		}
		return true
	})
}

func (w *rewriter) isChan(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// selectStmt turns a select into a switch over the case that goes ahead.
func (w *rewriter) selectStmt(x *ast.SelectStmt) {
	w.r.Seams["select"]++
	w.tmp++
	tmp := w.tmp
	def := false
	var names, arms []string
	arm := func(text string) string {
		n := fmt.Sprintf("vsimA%d_%d__", tmp, len(arms))
		names, arms = append(names, n), append(arms, text)
		return n
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		head := fmt.Sprintf("case %d", len(arms))
		switch st := cc.Comm.(type) {
		case nil:
			def = true
			head = "default"
		case *ast.SendStmt:
			arm(fmt.Sprintf("vsim__.ArmSend(%s)(%s)", w.render(st.Chan), w.render(st.Value)))
		case *ast.ExprStmt:
			arm("vsim__.ArmRecv(" + w.render(ast.Unparen(st.X).(*ast.UnaryExpr).X) + ")")
		case *ast.AssignStmt:
			n := arm("vsim__.ArmRecv(" + w.render(ast.Unparen(st.Rhs[0]).(*ast.UnaryExpr).X) + ")")
			var lhs []string
			for _, l := range st.Lhs {
				lhs = append(lhs, w.render(l))
			}
			head += fmt.Sprintf(": %s %s %s.Got%d()", strings.Join(lhs, ", "), st.Tok, n, len(st.Lhs))
		}
		from := w.off(cc.Pos())
		if to := w.off(cc.Colon); strings.Contains(head, ": ") {
			w.edits = append(w.edits, edit{from, to + 1, head + "; ", len(w.edits)})
		} else {
			w.edits = append(w.edits, edit{from, to, head, len(w.edits)})
		}
		w.stmts(cc.Body)
		for _, b := range cc.Body {
			w.node(b)
		}
	}
	init := ""
	if len(arms) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(arms, ", ") + "; "
	}
	w.edits = append(w.edits, edit{w.off(x.Select), w.off(x.Body.Lbrace),
		fmt.Sprintf("switch %svsim__.Select(%s) ", init, strings.Join(append([]string{fmt.Sprint(def)}, names...), ", ")), len(w.edits)})
}

func (w *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue // clauses of a switch or select: their bodies are visited on their own
		}
		w.insert(s.Pos(), w.site(s.Pos()))
	}
}

func (w *rewriter) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := w.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

func (w *rewriter) isMap(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func (w *rewriter) node(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			w.stmts(x.List)
		case *ast.CaseClause:
			w.stmts(x.Body)
		case *ast.CommClause:
			w.stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				w.insertOff(w.off(x.Body.Lbrace)+1, w.site(x.Body.Lbrace))
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				w.insertOff(w.off(x.Body.Lbrace)+1, w.site(x.Body.Lbrace))
			}
			if w.isMap(x.X) {
				w.rangeMap(x)
			}
			if w.isChan(x.X) && !plain {
				w.rangeChan(x)
			}
		case *ast.SelectStmt:
			if !plain {
				w.selectStmt(x)
				return false
			}
		case *ast.SendStmt:
			if !plain {
				w.insert(x.Pos(), "vsim__.Send(")
				w.replace(x.Arrow, x.Arrow+2, ")(")
				w.insert(x.End(), ")")
				w.r.Seams["send"]++
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !plain {
				name := "vsim__.Recv("
				if w.pairs[x] {
					name = "vsim__.Recv2("
				}
				w.replace(x.OpPos, x.OpPos+2, name)
				w.insert(x.End(), ")")
				w.r.Seams["receive"]++
			}
		case *ast.GoStmt:
			w.goStmt(x)
			return false
		case *ast.SelectorExpr:
			if w.pkgOf(x.X) == "runtime" && x.Sel.Name == "Gosched" {
				local := w.text(x.X)
				w.replace(x.X.Pos(), x.X.End(), "vsim__")
				w.tail = append(w.tail, "var _ = "+local+".Gosched")
			}
			if keep := placeFuncs[w.pkgOf(x.X)+"."+x.Sel.Name]; keep != "" {
				local := w.text(x.X)
				w.replace(x.X.Pos(), x.X.End(), "vsim__")
				w.tail = append(w.tail, "var _ = "+local+keep[strings.Index(keep, "."):])
				w.r.Seams[w.pkgOf(x.X)+"."+x.Sel.Name]++
			}
			if to, ok := rareFuncs[w.pkgOf(x.X)+"."+x.Sel.Name]; ok && !plain {
				w.tail = append(w.tail, "var _ = "+w.text(x.X)+"."+to[1])
				w.replace(x.Pos(), x.End(), "vsim__."+to[0])
				w.r.Seams[w.pkgOf(x.X)+"."+x.Sel.Name]++
			}
			if w.pkgOf(x.X) == "time" && timeFuncs[x.Sel.Name] != "" && !(plain && timerFuncs[x.Sel.Name]) {
				local := w.text(x.X)
				w.replace(x.X.Pos(), x.X.End(), "vsim__")
				w.tail = append(w.tail, "var _ = "+local+".Unix")
				w.r.Seams["time."+x.Sel.Name]++
			}
		}
		return true
	})
}

func addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return addressable(x.X)
	case *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return addressable(x.X)
	}
	return false
}

func (w *rewriter) rangeMap(x *ast.RangeStmt) {
	w.tmp++
	it := fmt.Sprintf("vsimIt%d__", w.tmp)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	k, v := fmt.Sprintf("vsimK%d__", w.tmp), fmt.Sprintf("vsimV%d__", w.tmp)
	kk, vv := k, v
	if x.Tok == token.ASSIGN {
		for _, e := range []ast.Expr{x.Key, x.Value} {
			if !blank(e) && !addressable(e) {
				pos := w.fset.Position(x.Pos())
				w.r.MapUnseamed = append(w.r.MapUnseamed, fmt.Sprintf("%s:%d", w.rel, pos.Line))
				return
			}
		}
	}
	if !blank(x.Key) {
		kk = w.text(x.Key)
	}
	if !blank(x.Value) {
		vv = w.text(x.Value)
	}
	dk, dv := k, v
	if x.Tok == token.DEFINE {
		if !blank(x.Key) {
			dk = kk
		}
		if !blank(x.Value) {
			dv = vv
		}
	}
	if x.Tok == token.ASSIGN && !blank(x.Key) {
		dk = "_"
	}
	if x.Tok == token.ASSIGN && !blank(x.Value) {
		dv = "_"
	}
	// keep line numbers: the header must not gain or lose newlines; X stays in place
	w.edits = append(w.edits, edit{w.off(x.For), w.off(x.X.Pos()),
		fmt.Sprintf("for %s, %s, %s := vsim__.MapIter(", it, dk, dv), len(w.edits)})
	w.insert(x.X.End(), fmt.Sprintf("); %s.Next(&%s, &%s); ", it, kk, vv))
	w.r.MapRanges++
}

// rangeChan rewrites a range over a channel.
func (w *rewriter) rangeChan(x *ast.RangeStmt) {
	w.tmp++
	it, v := fmt.Sprintf("vsimIt%d__", w.tmp), fmt.Sprintf("vsimV%d__", w.tmp)
	into, decl := v, v
	if id, ok := x.Key.(*ast.Ident); x.Key != nil && !(ok && id.Name == "_") {
		into = w.text(x.Key)
		if decl = into; x.Tok == token.ASSIGN {
			decl = "_"
		}
	}
	w.edits = append(w.edits, edit{w.off(x.For), w.off(x.X.Pos()), fmt.Sprintf("for %s, %s := vsim__.NewChanIter(", it, decl), len(w.edits)})
	w.insert(x.X.End(), fmt.Sprintf("); %s.Next(&%s); ", it, into))
	w.r.Seams["range channel"]++
}

func (w *rewriter) goStmt(x *ast.GoStmt) {
	w.r.Seams["go"]++
	fl, lit := x.Call.Fun.(*ast.FuncLit)
	if lit && len(x.Call.Args) == 0 {
		w.node(fl)
		w.replace(x.Go, fl.Pos(), "vsim__.Go(")
		w.replace(x.Call.Lparen, x.Call.End(), ")")
		return
	}
	w.tmp++
	fn := fmt.Sprintf("vsimF%d__", w.tmp)
	var lhs, rhs, args []string
	for i, a := range x.Call.Args {
		tv := w.info.Types[a]
		if _, several := tv.Type.(*types.Tuple); several || tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, w.render(a))
			continue
		}
		n := fmt.Sprintf("vsimA%d_%d__", w.tmp, i)
		lhs = append(lhs, n)
		rhs = append(rhs, w.render(a))
		args = append(args, n)
	}
	dots := ""
	if x.Call.Ellipsis.IsValid() {
		dots = "..."
	}
	if !lit {
		if w.info.Types[x.Call.Fun].IsBuiltin() {
			fn = w.text(x.Call.Fun)
		} else {
			lhs = append([]string{fn}, lhs...)
			rhs = append([]string{w.render(x.Call.Fun)}, rhs...)
		}
	}
	before := ""
	if len(lhs) > 0 {
		before = strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}
	call := fmt.Sprintf("%svsim__.Go(func() { %s(%s%s) }) }", before, fn, strings.Join(args, ", "), dots)
	if lit {
		w.node(fl)
		w.replace(x.Go, fl.Pos(), "{ "+fn+" := ")
		w.replace(x.Call.Lparen, x.Call.End(), "; "+call)
		return
	}
	w.replace(x.Pos(), x.End(), "{ "+call)
}
