package main

// Loading /repo's current source through an overlay: imports of packages that reach the
// operating system are redirected to model packages, the harness is added, nothing is
// written into /repo.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/xtfly/log4g"

var importMap = map[string]string{
	"os":               "zz_vos",
	"io/ioutil":        "zz_vioutil",
	"path/filepath":    "zz_vfilepath",
	"time":             "zz_vtime",
	"log/syslog":       "zz_vsyslog",
	"gopkg.in/yaml.v2": "zz_vyaml",
	"encoding/json":    "zz_vjson",
	"compress/gzip":    "zz_vgzip",
	"archive/tar":      "zz_vtar",
	"archive/zip":      "zz_vzip",
	"log":              "zz_vlog",
	"os/signal":        "zz_vsignal",
}

type source struct {
	repo    string
	verif   string
	overlay map[string][]byte // virtual path -> content
	scen    []scenario
	tmp     string
	funcs   int
}

type scenario struct {
	name  string
	opts  map[string]string
	doc   string
	order int
}

func (s *source) pkgDir(p string) string { return filepath.Join(s.repo, "internal", p) }

// repoFiles lists the non-test Go files of the module.
func repoFiles(repo string) ([]string, error) {
	var r []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "example") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			r = append(r, p)
		}
		return nil
	})
	sort.Strings(r)
	return r, err
}

type edit struct {
	at   int
	end  int
	text string
}

func applyEdits(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var b bytes.Buffer
	p := 0
	for _, e := range es {
		b.Write(src[p:e.at])
		b.WriteString(e.text)
		p = e.end
	}
	b.Write(src[p:])
	return b.Bytes()
}

// rewrite redirects imports and, for native replay, adds scheduling points.
func rewrite(fset *token.FileSet, name string, src []byte, points bool) ([]byte, error) {
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	model := strings.Contains(name, "/zz_")
	if !model {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			to, ok := importMap[p]
			if !ok {
				continue
			}
			nm := ""
			if im.Name == nil {
				nm = filepath.Base(p) + " "
				if p == "gopkg.in/yaml.v2" {
					nm = "yaml "
				}
			}
			es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), nm + strconv.Quote(modPath+"/internal/"+to)})
		}
	}
	if points {
		pts := pointEdits(fset, f, off)
		if len(pts) > 0 && !strings.Contains(name, "zz_vrt") {
			es = append(es, pts...)
			es = append(es, edit{off(f.Name.End()), off(f.Name.End()), "; import zz_sched " + strconv.Quote(modPath+"/internal/zz_vrt")})
		}
	}
	if len(es) == 0 {
		return src, nil
	}
	return applyEdits(src, es), nil
}

// pointEdits inserts zz_sched.At("file:line") before statements containing visible operations.
func pointEdits(fset *token.FileSet, f *ast.File, off func(token.Pos) int) []edit {
	var es []edit
	visibleCall := map[string]bool{"Lock": true, "RLock": true, "Wait": true, "TryLock": true, "Signal": true, "Broadcast": true, "Add": true,
		"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true}
	var opsIn func(n ast.Node) []token.Pos
	opsIn = func(n ast.Node) []token.Pos {
		var r []token.Pos
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit, *ast.BlockStmt, *ast.GoStmt, *ast.DeferStmt:
				return false
			case *ast.SendStmt:
				r = append(r, y.Arrow)
			case *ast.UnaryExpr:
				if y.Op == token.ARROW {
					r = append(r, y.Pos())
				}
			case *ast.CallExpr:
				if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "close" {
					r = append(r, y.Pos())
				}
				if se, ok := y.Fun.(*ast.SelectorExpr); ok {
					if visibleCall[se.Sel.Name] {
						r = append(r, y.Lparen)
					} else if id, ok := se.X.(*ast.Ident); ok && id.Name == "atomic" {
						r = append(r, y.Lparen)
					}
				}
			}
			return true
		})
		return r
	}
	add := func(st ast.Stmt, ps []token.Pos) {
		if len(ps) == 0 {
			return
		}
		var sb strings.Builder
		for _, p := range ps {
			fmt.Fprintf(&sb, "zz_sched.At(%q);", shortPos(fset.Position(p)))
		}
		es = append(es, edit{off(st.Pos()), off(st.Pos()), sb.String()})
	}
	list := func(l []ast.Stmt) {
		for _, st := range l {
			switch s := st.(type) {
			case *ast.SelectStmt:
				add(st, []token.Pos{s.Select})
			case *ast.IfStmt:
				var ps []token.Pos
				if s.Init != nil {
					ps = append(ps, opsIn(s.Init)...)
				}
				ps = append(ps, opsIn(s.Cond)...)
				add(st, ps)
			case *ast.SwitchStmt:
				var ps []token.Pos
				if s.Init != nil {
					ps = append(ps, opsIn(s.Init)...)
				}
				if s.Tag != nil {
					ps = append(ps, opsIn(s.Tag)...)
				}
				add(st, ps)
			case *ast.SendStmt, *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.DeclStmt:
				add(st, opsIn(st))
			case *ast.RangeStmt:
				// receive in a range over a channel: gate at the top of the body
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BlockStmt:
			list(y.List)
		case *ast.CaseClause:
			list(y.Body)
		case *ast.CommClause:
			list(y.Body)
		}
		return true
	})
	return es
}

func shortPos(p token.Position) string {
	return filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line)
}

func buildOverlay(repo, verif, prop string, points bool) (*source, error) {
	s := &source{repo: repo, verif: verif, overlay: map[string][]byte{}}
	fset := token.NewFileSet()
	files, err := repoFiles(repo)
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		src, err := ioutil.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out, err := rewrite(fset, f, src, points)
		if err != nil {
			return nil, err
		}
		if !bytes.Equal(out, src) {
			s.overlay[f] = out
		}
	}
	// model packages
	ms, err := filepath.Glob(filepath.Join(verif, "model", "*", "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range ms {
		src, err := ioutil.ReadFile(f)
		if err != nil {
			return nil, err
		}
		d := "zz_" + filepath.Base(filepath.Dir(f))
		virt := filepath.Join(s.pkgDir(d), filepath.Base(f))
		if points {
			if src, err = rewrite(fset, virt, src, true); err != nil {
				return nil, err
			}
		}
		s.overlay[virt] = src
	}
	// harness
	hs, _ := filepath.Glob(filepath.Join(verif, "harness", "common*.go"))
	h2, _ := filepath.Glob(filepath.Join(verif, "harness", strings.ToLower(prop)+"*.go"))
	if len(h2) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	for _, f := range append(hs, h2...) {
		src, err := ioutil.ReadFile(f)
		if err != nil {
			return nil, err
		}
		virt := filepath.Join(repo, "internal", "zzh_"+filepath.Base(f))
		pf, err := parser.ParseFile(fset, virt, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range pf.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "ZZ") {
				continue
			}
			sc := scenario{name: fd.Name.Name, opts: map[string]string{}, order: len(s.scen)}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//")); strings.HasPrefix(t, "zz:") {
						for _, kv := range strings.Fields(t[3:]) {
							p := strings.SplitN(kv, "=", 2)
							v := "1"
							if len(p) == 2 {
								v = p[1]
							}
							sc.opts[p[0]] = v
						}
					} else {
						sc.doc += strings.TrimSpace(strings.TrimPrefix(c.Text, "//")) + " "
					}
				}
			}
			s.scen = append(s.scen, sc)
		}
		out, err := rewrite(fset, virt, src, points)
		if err != nil {
			return nil, err
		}
		s.overlay[virt] = out
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\tv \"" + modPath + "/internal/zz_vrt\"\n\tlog4g \"" + modPath + "\"\n\t\"" + modPath + "/internal\"\n\tvtop \"" + modPath + "/internal/zz_vtop\"\n\t_ \"" + modPath + "/internal/zz_vfmt\"\n)\n\nfunc init() {\n\tvtop.GetLogger, vtop.GetManager = log4g.GetLogger, log4g.GetManager\n}\n\nfunc main() {\n\tv.Main(map[string]func(){\n")
	for _, sc := range s.scen {
		fmt.Fprintf(&sb, "\t\t%q: internal.%s,\n", sc.name, sc.name)
	}
	sb.WriteString("\t})\n}\n")
	s.overlay[filepath.Join(s.pkgDir("zz_main"), "main.go")] = []byte(sb.String())
	if s.tmp, err = ioutil.TempDir("", "gosym"); err != nil {
		return nil, err
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := ioutil.ReadFile(filepath.Join(repo, n))
		if err == nil {
			ioutil.WriteFile(filepath.Join(s.tmp, n), b, 0644)
		}
	}
	return s, nil
}

func (s *source) cleanup() {
	if s.tmp != "" && strings.HasPrefix(filepath.Base(s.tmp), "gosym") {
		os.RemoveAll(s.tmp)
	}
}

func (s *source) env() []string {
	e := append([]string{}, os.Environ()...)
	return append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off", "TZ=UTC")
}

// writeOverlay materialises the overlay in the scratch directory for the go command.
func (s *source) writeOverlay() (string, error) {
	rep := map[string]string{}
	i := 0
	for _, k := range sortedPaths(s.overlay) {
		p := filepath.Join(s.tmp, fmt.Sprintf("f%d.go", i))
		i++
		if err := ioutil.WriteFile(p, s.overlay[k], 0644); err != nil {
			return "", err
		}
		rep[k] = p
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	p := filepath.Join(s.tmp, "overlay.json")
	return p, ioutil.WriteFile(p, b, 0644)
}

func sortedPaths(m map[string][]byte) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// buildNative compiles the harness program against the real runtime.
func (s *source) buildNative(race bool) (string, error) {
	ov, err := s.writeOverlay()
	if err != nil {
		return "", err
	}
	out := filepath.Join(s.tmp, "replay")
	args := []string{"build", "-overlay", ov, "-modfile", filepath.Join(s.tmp, "go.mod"), "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/zz_main")
	cmd := exec.Command("go", args...)
	cmd.Dir = s.repo
	cmd.Env = s.env()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, b)
	}
	return out, nil
}

func (e *Engine) load(s *source) error {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedTypesSizes,
		Dir:        s.repo,
		Env:        append(s.env(), "CGO_ENABLED=0"),
		Overlay:    s.overlay,
		BuildFlags: []string{"-modfile=" + filepath.Join(s.tmp, "go.mod")},
	}
	pkgs, err := packages.Load(cfg, "./internal/zz_main")
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	e.fset = prog.Fset
	e.mainPkg = sp[0]
	e.built = map[*ssa.Package]bool{}
	e.pkgByPath = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgByPath[p.Pkg.Path()] = p
	}
	prog.Build()
	ip := e.pkgByPath[modPath+"/internal"]
	if ip == nil {
		return fmt.Errorf("package internal not loaded")
	}
	for i := range s.scen {
		fn := ip.Func(s.scen[i].name)
		if fn == nil {
			return fmt.Errorf("no function %s", s.scen[i].name)
		}
		e.harnessFns = append(e.harnessFns, fn)
	}
	// redirects: every exported function F of zz_vfmt/zz_vredir named Pkg_F replaces pkg.F
	e.redirect = map[string]*ssa.Function{}
	if p := e.pkgByPath[modPath+"/internal/zz_vfmt"]; p != nil {
		for n, mem := range p.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			if i := strings.Index(n, "_"); i > 0 && token.IsExported(n) {
				e.redirect[strings.ToLower(n[:i])+"."+n[i+1:]] = fn
			}
		}
		if t := p.Type("RuntimeError"); t != nil {
			e.rtErrType = t.Type()
		}
	}
	return nil
}

func (e *Engine) lookupType(pkg, name string) types.Type {
	p := e.pkgByPath[pkg]
	if p == nil || p.Type(name) == nil {
		unsupported("type %s.%s not loaded", pkg, name)
	}
	return p.Type(name).Type()
}
