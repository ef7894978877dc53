// Command inst copies the Go packages of the code under test into a build
// directory and adds, by text edits only, the hooks of vmc.local/rt:
//
//   - rt.P() before every statement and at the head of every loop body
//     (logical clock: horizon for endless loops, preemption points);
//   - map range loops iterate in an order chosen by the explorer;
//   - sync and sync/atomic are replaced by shims the explorer can block on;
//   - go statements create threads known to the explorer;
//   - every package-level variable is registered by name.
//
// It judges nothing and keeps the meaning of the code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	EmbedFiles []string
	Module     *struct{ Path, Dir string }
}

var (
	repo  = flag.String("repo", "/repo", "tree to instrument")
	out   = flag.String("out", "", "output directory")
	plain = flag.Bool("plain", false, "copy and register variables only")
)

const rtPath = "vmc.local/rt"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "inst: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	roots := []string{"."}
	for _, d := range []string{"hmm/...", "tools/server"} {
		roots = append(roots, "./"+d)
	}
	args := append([]string{"list", "-e", "-export", "-deps", "-tags", "ne", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,EmbedFiles,Module"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	buf, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(buf)))
	all := map[string]*pkg{}
	var mine []*pkg
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		all[p.ImportPath] = p
		if p.Standard || p.Module == nil {
			continue
		}
		mine = append(mine, p)
	}
	mods := map[string]string{}
	for _, p := range mine {
		mods[p.Module.Path] = p.Module.Dir
	}
	for _, p := range mine {
		base := filepath.Join(*out, modDir(p.Module.Path))
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		dst := filepath.Join(base, rel)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die("%v", err)
		}
		instrument(p, all, dst)
		if p.Name == "main" && strings.HasSuffix(p.ImportPath, "tools/server") {
			sdst := filepath.Join(base, "vmcserver")
			os.MkdirAll(sdst, 0o755)
			q := *p
			q.Name = "vmcserver"
			instrument(&q, all, sdst)
			os.RemoveAll(dst)
		}
	}
	for path, dir := range mods {
		base := filepath.Join(*out, modDir(path))
		gomod := "module " + path + "\n\ngo 1.21\n\nrequire vmc.local/rt v0.0.0\n"
		for other := range mods {
			if other != path && path == "github.com/go-ego/gse" {
				gomod += "require " + other + " v0.0.0\n"
			}
		}
		write(filepath.Join(base, "go.mod"), []byte(gomod))
		for _, d := range []string{"data", "testdata"} {
			if st, err := os.Stat(filepath.Join(dir, d)); err == nil && st.IsDir() && path == "github.com/go-ego/gse" {
				os.Remove(filepath.Join(base, d))
				if err := os.Symlink(filepath.Join(dir, d), filepath.Join(base, d)); err != nil {
					die("%v", err)
				}
			}
		}
	}
}

func modDir(path string) string { return filepath.Base(path) }

func write(f string, b []byte) {
	if err := os.WriteFile(f, b, 0o644); err != nil {
		die("%v", err)
	}
}

type edit struct {
	pos, end int // replace [pos,end)
	text     string
	seq      int
}

func instrument(p *pkg, all map[string]*pkg, dst string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, af)
		srcs = append(srcs, b)
	}
	for _, e := range p.EmbedFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, e))
		if err == nil {
			os.MkdirAll(filepath.Dir(filepath.Join(dst, e)), 0o755)
			write(filepath.Join(dst, e), b)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	conf := types.Config{Importer: imp, Error: func(error) {}}
	conf.Check(p.ImportPath, fset, files, info)

	server := p.Name == "vmcserver"
	var globals []string
	for i, af := range files {
		src := srcs[i]
		var eds []edit
		seq := 0
		off := func(ps token.Pos) int { return fset.Position(ps).Offset }
		add := func(ps, end int, t string) {
			seq++
			eds = append(eds, edit{ps, end, t, seq})
		}
		use := false
		if server {
			add(off(af.Name.Pos()), off(af.Name.End()), "vmcserver")
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							if n.Name != "_" {
								globals = append(globals, n.Name)
							}
						}
					}
				}
			case *ast.FuncDecl:
				if server && d.Recv == nil && d.Name.Name == "main" {
					add(off(d.Name.Pos()), off(d.Name.End()), "Main")
				}
			}
		}
		if !*plain {
			// comments such as //go:noinline stay attached: edits never touch them
			for _, im := range af.Imports {
				path := strings.Trim(im.Path.Value, "`\"")
				name := ""
				switch path {
				case "sync":
					name = "sync"
					path = rtPath + "/vsync"
				case "sync/atomic":
					name = "atomic"
					path = rtPath + "/vatomic"
				default:
					continue
				}
				if im.Name != nil {
					name = im.Name.Name
				}
				start := im.Path.Pos()
				if im.Name != nil {
					start = im.Name.Pos()
				}
				add(off(start), off(im.Path.End()), name+" \""+path+"\"")
			}
			stmtList := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					add(off(s.Pos()), off(s.Pos()), "vmcrt.P(); ")
					use = true
				}
			}
			n := 0
			ast.Inspect(af, func(nd ast.Node) bool {
				switch nd := nd.(type) {
				case *ast.BlockStmt:
					stmtList(nd.List)
				case *ast.CaseClause:
					stmtList(nd.Body)
				case *ast.CommClause:
					stmtList(nd.Body)
				case *ast.ForStmt:
					add(off(nd.Body.Lbrace)+1, off(nd.Body.Lbrace)+1, " vmcrt.P(); ")
					use = true
				case *ast.RangeStmt:
					if t, ok := info.Types[nd.X]; ok && t.Type != nil {
						if _, ok := t.Type.Underlying().(*types.Map); ok {
							x := string(src[off(nd.X.Pos()):off(nd.X.End())])
							key, val := "", ""
							if nd.Key != nil {
								key = string(src[off(nd.Key.Pos()):off(nd.Key.End())])
							}
							if nd.Value != nil {
								val = string(src[off(nd.Value.Pos()):off(nd.Value.End())])
							}
							n++
							it := fmt.Sprintf("vmcIt%d", n)
							rep := ""
							lead := key == "" && val == ""
							if key == "_" {
								key = ""
							}
							if val == "_" {
								val = ""
							}
							if nd.Tok == token.DEFINE && !lead {
								switch {
								case key != "" && val != "":
									rep = fmt.Sprintf("for %s, %s, %s := vmcrt.BeginKV(%s); %s.Next(&%s, &%s); {", key, val, it, x, it, key, val)
								case key != "":
									rep = fmt.Sprintf("for %s, %s := vmcrt.BeginK(%s); %s.Next(&%s, nil); {", key, it, x, it, key)
								case val != "":
									rep = fmt.Sprintf("for %s, %s := vmcrt.BeginV(%s); %s.Next(nil, &%s); {", val, it, x, it, val)
								}
							}
							// x itself must not contain edits (function literals): leave those loops alone
							hasLit := false
							ast.Inspect(nd.X, func(m ast.Node) bool {
								if _, ok := m.(*ast.FuncLit); ok {
									hasLit = true
								}
								return true
							})
							if rep != "" && !hasLit {
								add(off(nd.For), off(nd.Body.Lbrace)+1, rep+" vmcrt.P(); ")
								use = true
								break
							}
						}
					}
					add(off(nd.Body.Lbrace)+1, off(nd.Body.Lbrace)+1, " vmcrt.P(); ")
					use = true
				case *ast.GoStmt:
					// go f(a, b)  ->  vmcrt.Go(func() func() { ... evaluated args ... }())
					c := nd.Call
					if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
						add(off(nd.Go), off(fl.Pos()), "vmcrt.Go(")
						add(off(fl.End()), off(c.End()), ")")
						use = true
					} else if len(c.Args) > 0 && c.Ellipsis == token.NoPos {
						// evaluate function value and arguments now, call later
						var names []string
						pre := ""
						for k := range c.Args {
							names = append(names, fmt.Sprintf("vmcA%d", k))
						}
						pre = "{ vmcF, " + strings.Join(names, ", ") + " := "
						add(off(nd.Go), off(c.Fun.Pos()), pre)
						add(off(c.Fun.End()), off(c.Args[0].Pos()), ", ")
						add(off(c.Args[len(c.Args)-1].End()), off(c.End()), "; vmcrt.Go(func() { vmcF("+strings.Join(names, ", ")+") }) }")
						use = true
					} else if len(c.Args) == 0 {
						add(off(nd.Go), off(c.Fun.Pos()), "{ vmcF := ")
						add(off(c.Fun.End()), off(c.End()), "; vmcrt.Go(vmcF) }")
						use = true
					}
				}
				return true
			})
		}
		if use {
			add(off(af.Name.End()), off(af.Name.End()), "; import vmcrt \""+rtPath+"\"; ")
		}
		write(filepath.Join(dst, filepath.Base(p.GoFiles[i])), apply(src, eds))
	}
	if len(globals) > 0 {
		sort.Strings(globals)
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport vmcrt %q\n\nfunc init() {\n", p.Name, rtPath)
		path := p.ImportPath
		for _, g := range globals {
			fmt.Fprintf(&sb, "\tvmcrt.Reg(%q, %q, &%s)\n", path, g, g)
		}
		sb.WriteString("}\n")
		write(filepath.Join(dst, "vmc_globals.go"), []byte(sb.String()))
	}
}

func apply(src []byte, eds []edit) []byte {
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].pos != eds[j].pos {
			return eds[i].pos < eds[j].pos
		}
		// insertions first, in order of creation
		zi, zj := eds[i].pos == eds[i].end, eds[j].pos == eds[j].end
		if zi != zj {
			return zi
		}
		return eds[i].seq < eds[j].seq
	})
	var out []byte
	at := 0
	for _, e := range eds {
		if e.pos < at {
			continue // overlapping edit: the outer one wins
		}
		out = append(out, src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, src[at:]...)
}
