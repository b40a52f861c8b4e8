// Command mkoverlay writes the -overlay file used to build the simulator.
//
// The overlay
//   - patches a few files of the Go runtime (seeded randomness, yield points),
//   - adds the harness in /verif/sim as a package of the repository's module,
//   - replaces each non-test source file of the repository with a copy that
//     has a yield point before every statement (line numbers unchanged).
//
// Nothing is written outside -out.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type patch struct{ file, old, new string }

var patches = []patch{
	{"runtime/runtime2.go", "	valgrindStackID uintptr\n}\n",
		"	valgrindStackID uintptr\n\n	simLocal  unsafe.Pointer\n	simFrom   unsafe.Pointer\n	simID     int32\n	simSite   uint32\n	simParked bool\n}\n"},
	{"runtime/runtime2.go", "	waitReasonSyncCondWait:          true,\n",
		"	waitReasonSyncCondWait:          true,\n	waitReasonSyncMutexLock: true,\n	waitReasonSyncRWMutexRLock: true,\n	waitReasonSyncRWMutexLock: true,\n"},
	{"runtime/proc.go", "		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		simBorn(newg, callergp)\n"},
	{"runtime/proc.go", "	gp.timer = nil\n	gp.bubble = nil\n",
		"	gp.timer = nil\n	gp.bubble = nil\n	simGone(gp)\n"},
	{"runtime/proc.go", "const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1 << 60"},
	{"runtime/proc.go", "func goexit1() {\n", "func goexit1() {\n	if getg().simID != 0 {\n		SimWake()\n	}\n"},
	{"runtime/proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
	// A pool's happens-before edges depend on addresses and on chance, so
	// under the race detector pools keep nothing.
	{"sync/pool.go", "		if runtime_randn(4) == 0 {\n", "		if true {\n"},
	{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simCheapn(uint32(norder + 1))"},
	{"runtime/time.go", "t.rand = cheaprand()", "t.rand = simCheap()"},
	{"runtime/rand.go", "func maps_rand() uint64 {\n	return rand()\n}", "func maps_rand() uint64 {\n	return simNext()\n}"},
	{"runtime/alg.go", "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(simBoot())"},
	{"runtime/alg.go", "key[i] = bootstrapRand()", "key[i] = simBoot()"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n	return nanotime()\n}", "func internal_sync_nanotime() int64 {\n	return simNanotime()\n}"},
}

func main() {
	goroot := flag.String("goroot", "", "GOROOT to patch")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	out := flag.String("out", "", "output directory")
	flag.Parse()

	replace := map[string]string{}
	put := func(target, name string, data []byte) {
		p := filepath.Join(*out, name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		if old, err := os.ReadFile(p); err != nil || string(old) != string(data) {
			must(os.WriteFile(p, data, 0o644))
		}
		replace[target] = p
	}

	// Go runtime.
	src := map[string]string{}
	for _, p := range patches {
		s, ok := src[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(*goroot, "src", p.file))
			must(err)
			s = string(b)
		}
		if strings.Count(s, p.old) != 1 {
			fail("cannot patch %s: %q occurs %d times", p.file, p.old, strings.Count(s, p.old))
		}
		src[p.file] = strings.Replace(s, p.old, p.new, 1)
	}
	for f, s := range src {
		put(filepath.Join(*goroot, "src", f), filepath.Join("goroot", f), []byte(s))
	}
	rt, err := os.ReadFile(filepath.Join(*verif, "rt", "zverifsim.go.txt"))
	must(err)
	put(filepath.Join(*goroot, "src/runtime/zverifsim.go"), "goroot/runtime/zverifsim.go", rt)

	// Harness.
	files, err := filepath.Glob(filepath.Join(*verif, "sim", "*.go"))
	must(err)
	for _, f := range files {
		replace[filepath.Join(*repo, "internal/verifsim", filepath.Base(f))] = f
	}

	// Repository sources.
	var sites []string
	var paths []string
	must(filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if d.IsDir() {
			b := d.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "artifacts") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			paths = append(paths, rel)
		}
		return nil
	}))
	sort.Strings(paths)
	for _, rel := range paths {
		if skip(rel) {
			continue
		}
		data, err := os.ReadFile(filepath.Join(*repo, rel))
		must(err)
		outData, n, ok := instrument(rel, data, len(sites))
		if !ok {
			continue
		}
		sites = append(sites, n...)
		put(filepath.Join(*repo, rel), filepath.Join("repo", rel), outData)
	}

	must(os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644))
	j, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	fmt.Printf("overlay: %d files, %d yield sites\n", len(replace), len(sites))
}

// skip excludes packages whose code is a pure function of its arguments; they
// have no state shared between goroutines for a switch to expose.
func skip(rel string) bool {
	for _, p := range []string{"internal/inflect/", "internal/report/", "internal/fixtures/", "internal/testingmock/", "internal/verifsim/", "docs/"} {
		if strings.HasPrefix(rel, p) {
			return true
		}
	}
	return false
}

func instrument(rel string, data []byte, base int) ([]byte, []string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, data, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		// Leave it as it is; the compiler will report the error.
		return nil, nil, false
	}
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				return nil, nil, false
			}
		}
	}
	if f.Name.Name == "main" {
		return nil, nil, false
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	var sites []string
	tf := fset.File(f.Pos())
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			id := base + len(sites)
			sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(s.Pos()).Line))
			all = append(all, ins{tf.Offset(s.Pos()), fmt.Sprintf("verifsim_.SimYield(%d);", id)})
		}
	}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			if n.Init != nil {
				ast.Inspect(n.Init, walk)
			}
			if n.Tag != nil {
				ast.Inspect(n.Tag, walk)
			}
			for _, c := range n.Body.List {
				ast.Inspect(c, walk)
			}
			return false
		case *ast.TypeSwitchStmt:
			if n.Init != nil {
				ast.Inspect(n.Init, walk)
			}
			ast.Inspect(n.Assign, walk)
			for _, c := range n.Body.List {
				ast.Inspect(c, walk)
			}
			return false
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				ast.Inspect(c, walk)
			}
			return false
		case *ast.BlockStmt:
			add(n.List)
			if len(n.List) == 0 {
				id := base + len(sites)
				sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(n.Pos()).Line))
				all = append(all, ins{tf.Offset(n.Lbrace) + 1, fmt.Sprintf("verifsim_.SimYield(%d);", id)})
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && x.Name == "runtime" && n.Sel.Name == "Gosched" {
				all = append(all, ins{tf.Offset(n.Sel.Pos()), "Sim"})
			}
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	}
	for _, d := range f.Decls {
		ast.Inspect(d, walk)
	}
	if len(all) == 0 {
		return nil, nil, false
	}
	all = append(all, ins{tf.Offset(f.Name.End()), `; import verifsim_ "runtime"`})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var b strings.Builder
	pos := 0
	for _, i := range all {
		b.Write(data[pos:i.off])
		b.WriteString(i.text)
		pos = i.off
	}
	b.Write(data[pos:])
	return []byte(b.String()), sites, true
}

func must(err error) {
	if err != nil {
		fail("%s", err)
	}
}

func fail(f string, args ...any) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", args...)
	os.Exit(2)
}
