// Command instr copies the non-test Go files of a package and redirects every
// operation whose order or outcome the environment decides - goroutines,
// channels, locks, atomics, map iteration, operating system calls - to the
// controlled scheduler (vmc/vs) and the simulated kernel (vmc/kern).
//
// The rewriting is driven by types, not by names in the source, so that it
// follows any change of the code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type cfg struct {
	Src    string            // source directory
	Out    string            // output directory (package notify goes here)
	GOOS   string            // whose files
	Tags   []string          // extra build tags
	Skip   []string          // file names left out
	Swap   map[string]string // import path -> replacement, before type checking
	Shims  map[string]string // import path -> shim package
	Race   bool
	Cgo    bool     // keep files using cgo: C.x becomes vzC_x, which the extra files provide
	Extra  []string // plain files to copy along (not rewritten), type checked too
	ModDir string   // directory whose module resolves imports for type checking
	MC     string   // directory of module vmc
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	var c cfg
	cf := flag.String("config", "", "JSON configuration")
	flag.Parse()
	b, err := os.ReadFile(*cf)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%v", err)
	}
	run(&c)
}

var knownOS = map[string]bool{"aix": true, "android": true, "darwin": true, "dragonfly": true, "freebsd": true, "hurd": true, "illumos": true, "ios": true, "js": true, "linux": true, "nacl": true, "netbsd": true, "openbsd": true, "plan9": true, "solaris": true, "wasip1": true, "windows": true, "zos": true}
var knownArch = map[string]bool{"386": true, "amd64": true, "arm": true, "arm64": true, "loong64": true, "mips": true, "mips64": true, "mips64le": true, "mipsle": true, "ppc64": true, "ppc64le": true, "riscv64": true, "s390x": true, "wasm": true}

func (c *cfg) match(name string, src []byte) bool {
	base := strings.TrimSuffix(name, ".go")
	parts := strings.Split(base, "_")
	n := len(parts)
	if n >= 3 && knownOS[parts[n-2]] && knownArch[parts[n-1]] {
		if parts[n-2] != c.GOOS || parts[n-1] != "amd64" {
			return false
		}
	} else if n >= 2 && knownOS[parts[n-1]] {
		if parts[n-1] != c.GOOS {
			return false
		}
	} else if n >= 2 && knownArch[parts[n-1]] {
		if parts[n-1] != "amd64" {
			return false
		}
	}
	tag := func(t string) bool {
		if t == c.GOOS || t == "amd64" || t == "gc" {
			return true
		}
		if t == "unix" {
			return c.GOOS != "windows" && c.GOOS != "plan9" && c.GOOS != "js"
		}
		if strings.HasPrefix(t, "go1.") {
			return true
		}
		if t == "illumos" || t == "solaris" {
			return c.GOOS == t
		}
		for _, x := range c.Tags {
			if x == t {
				return true
			}
		}
		return false
	}
	for _, line := range strings.Split(string(src), "\n") {
		l := strings.TrimSpace(line)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err != nil {
				fatal("%s: %v", name, err)
			}
			return x.Eval(tag)
		}
	}
	for _, line := range strings.Split(string(src), "\n") {
		l := strings.TrimSpace(line)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsPlusBuild(l) {
			x, err := constraint.Parse(l)
			if err == nil && !x.Eval(tag) {
				return false
			}
		}
	}
	return true
}

var (
	cgoName   = regexp.MustCompile(`(^|[^\w."])C\.`)
	cgoImport = regexp.MustCompile(`(?m)^import "C"$`)
)

type file struct {
	name  string
	ast   *ast.File
	extra bool
	need  map[string]string // shim alias -> path
	vs    bool
}

type rw struct {
	c      *cfg
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	f      *file
	n      int
	shims  map[string]map[string]bool // path -> exported names of its shim
	capt   map[*types.Var]bool        // locals captured by function literals
	inits  []string
	fnName string
}

func run(c *cfg) {
	ents, err := os.ReadDir(c.Src)
	if err != nil {
		fatal("%v", err)
	}
	skip := map[string]bool{}
	for _, s := range c.Skip {
		skip[s] = true
	}
	fset := token.NewFileSet()
	var files []*file
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || skip[n] {
			continue
		}
		src, err := os.ReadFile(filepath.Join(c.Src, n))
		if err != nil {
			fatal("%v", err)
		}
		if !c.match(n, src) {
			continue
		}
		if c.Cgo {
			src = cgoImport.ReplaceAll(cgoName.ReplaceAll(src, []byte("${1}vzC_")), nil)
		}
		a, err := parser.ParseFile(fset, filepath.Join(c.Src, n), src, 0)
		if err != nil {
			fatal("%v", err)
		}
		if a.Name.Name != "notify" {
			continue
		}
		if c.Cgo {
			// two results: with the error number
			ast.Inspect(a, func(n ast.Node) bool {
				if as, ok := n.(*ast.AssignStmt); ok && len(as.Lhs) == 2 && len(as.Rhs) == 1 {
					if ca, ok := as.Rhs[0].(*ast.CallExpr); ok {
						if id, ok := ca.Fun.(*ast.Ident); ok && strings.HasPrefix(id.Name, "vzC_") {
							id.Name = "vzC2_" + strings.TrimPrefix(id.Name, "vzC_")
						}
					}
				}
				return true
			})
		}
		cgo := false
		for _, im := range a.Imports {
			if im.Path.Value == `"C"` {
				cgo = true
			}
		}
		if cgo {
			continue
		}
		files = append(files, &file{name: n, ast: a, need: map[string]string{}})
	}
	for _, n := range c.Extra {
		a, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, &file{name: filepath.Base(n), ast: a, extra: true, need: map[string]string{}})
	}
	if len(files) == 0 {
		fatal("no files")
	}
	// swap imports
	deps := map[string]bool{}
	for _, f := range files {
		for _, im := range f.ast.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if r, ok := c.Swap[p]; ok && !f.extra {
				im.Path.Value = strconv.Quote(r)
				p = r
				im.EndPos = 0
			}
			if p != "unsafe" && p != "C" {
				deps[p] = true
			}
		}
	}
	exports := listExports(c, deps)
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	var asts []*ast.File
	for _, f := range files {
		asts = append(asts, f.ast)
	}
	stub, err := parser.ParseFile(fset, "zz_reset.go", "package notify\nfunc VerifResetGlobals() {}\n", 0)
	if err != nil {
		fatal("%v", err)
	}
	asts = append(asts, stub)
	var terrs []string
	conf := types.Config{Importer: imp, FakeImportC: true, Error: func(err error) {
		if len(terrs) < 20 {
			terrs = append(terrs, err.Error())
		}
	}}
	pkg, _ := conf.Check("github.com/rjeczalik/notify", fset, asts, info)
	if len(terrs) > 0 {
		fatal("type errors:\n%s", strings.Join(terrs, "\n"))
	}
	r := &rw{c: c, fset: fset, info: info, pkg: pkg, shims: map[string]map[string]bool{}, capt: map[*types.Var]bool{}}
	for p, s := range c.Shims {
		r.shims[p] = exportedNames(filepath.Join(c.MC, strings.TrimPrefix(s, "vmc/")))
	}
	type gvar struct {
		spec *ast.ValueSpec
		i    int
		f    *file
	}
	gvars := map[types.Object]gvar{}
	for _, f := range files {
		if f.extra {
			continue
		}
		for _, d := range f.ast.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						gvars[info.Defs[n]] = gvar{vs, i, f}
					}
				}
			}
		}
		if c.Race {
			r.findCaptured(f.ast)
		}
	}
	var inits []string
	for _, f := range files {
		if f.extra {
			continue
		}
		r.f = f
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				r.fnName = d.Name.Name
				if d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("verifInit%d", len(inits))
					d.Name = ast.NewIdent(n)
					inits = append(inits, n)
				}
				r.funcType(d.Type)
				if d.Recv != nil {
					r.fields(d.Recv)
				}
				if d.Body != nil {
					r.block(d.Body)
				}
			case *ast.GenDecl:
				r.fnName = "var"
				r.genDecl(d)
			}
		}
	}
	// reset function, printed per file so that imports resolve
	reset := map[*file]*bytes.Buffer{}
	buf := func(f *file) *bytes.Buffer {
		if reset[f] == nil {
			reset[f] = &bytes.Buffer{}
		}
		return reset[f]
	}
	nfn := 0
	var order []string
	show := func(n any) string {
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, fset, n); err != nil {
			fatal("print: %v", err)
		}
		return b.String()
	}
	var zeros []types.Object
	for o, g := range gvars {
		if len(g.spec.Values) == 0 && o != nil && o.Name() != "_" {
			zeros = append(zeros, o)
		}
	}
	sort.Slice(zeros, func(i, j int) bool { return zeros[i].Pos() < zeros[j].Pos() })
	for _, o := range zeros {
		g := gvars[o]
		n := fmt.Sprintf("verifReset%d", nfn)
		nfn++
		fmt.Fprintf(buf(g.f), "func %s() { var z %s; %s = z }\n", n, show(g.spec.Type), o.Name())
		order = append(order, n)
	}
	for _, in := range info.InitOrder {
		g, ok := gvars[in.Lhs[0]]
		if !ok {
			continue // extra files
		}
		rhs := g.spec.Values[0]
		if len(g.spec.Values) == len(g.spec.Names) {
			rhs = g.spec.Values[g.i]
		}
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		n := fmt.Sprintf("verifReset%d", nfn)
		nfn++
		val := show(rhs)
		if len(lhs) == 1 && lhs[0] == "_" {
			continue
		}
		fmt.Fprintf(buf(g.f), "func %s() { %s = %s }\n", n, strings.Join(lhs, ", "), val)
		order = append(order, n)
	}
	for _, f := range files {
		if f.extra {
			src, err := os.ReadFile(fset.Position(f.ast.Pos()).Filename)
			if err != nil {
				fatal("%v", err)
			}
			write(filepath.Join(c.Out, f.name), src)
			continue
		}
		fixImports(r, f)
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.SourcePos | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, f.ast); err != nil {
			fatal("print %s: %v", f.name, err)
		}
		if rb := reset[f]; rb != nil {
			b.WriteString("\n")
			b.Write(rb.Bytes())
		}
		out := strings.TrimSuffix(f.name, ".go") + "_v.go" // no constraint by name
		write(filepath.Join(c.Out, out), b.Bytes())
	}
	var b bytes.Buffer
	b.WriteString("package notify\n\n// VerifResetGlobals runs all package initialisation again.\nfunc VerifResetGlobals() {\n")
	for _, n := range order {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	for _, n := range inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	write(filepath.Join(c.Out, "zz_reset.go"), b.Bytes())
}

func write(p string, b []byte) {
	if err := os.WriteFile(p, b, 0644); err != nil {
		fatal("%v", err)
	}
}

func listExports(c *cfg, deps map[string]bool) map[string]string {
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
	var ds []string
	for d := range deps {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	cmd := exec.Command("go", append(args, ds...)...)
	cmd.Dir = c.ModDir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if i := strings.IndexByte(l, '\t'); i > 0 {
			m[l[:i]] = l[i+1:]
		}
	}
	return m
}

func exportedNames(dir string) map[string]bool {
	m := map[string]bool{}
	pk, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		fatal("%v", err)
	}
	for _, p := range pk {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							if s.Name.IsExported() {
								m[s.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range s.Names {
								if n.IsExported() {
									m[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return m
}

// fixImports drops imports no longer used and adds the shims.
func fixImports(r *rw, f *file) {
	used := map[string]bool{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.ast.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(im.Path.Value)
			name := ""
			if im.Name != nil {
				name = im.Name.Name
			} else if o := r.info.Implicits[im]; o != nil {
				name = o.Name()
			} else {
				name = p[strings.LastIndexByte(p, '/')+1:]
			}
			if name != "_" && name != "." && !used[name] {
				continue
			}
			im.Name = ast.NewIdent(name)
			specs = append(specs, im)
		}
		if len(specs) > 0 {
			g.Specs = specs
			g.Lparen = 1
			decls = append(decls, g)
		}
	}
	var add []ast.Spec
	if f.vs {
		f.need["vcvs"] = "vmc/vs"
	}
	var names []string
	for n := range f.need {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add = append(add, &ast.ImportSpec{Name: ast.NewIdent(n), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(f.need[n])}})
	}
	if len(add) > 0 {
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: add}}, decls...)
	}
	f.ast.Decls = decls
	f.ast.Imports = nil
}
