// Command overlay prepares the build overlay of the checks: it rewrites the
// library's current sources (every non-test Go file below the module root) so
// that each statement is preceded by a call of verifsim.S, and patches the
// standard library's clock and map randomness to the simulator's. Nothing is
// written below the module root or GOROOT; the result is an overlay file for
// go build -overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insertion struct {
	off  int
	text string
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "overlay: "+format+"\n", a...)
	os.Exit(3)
}

var skipDirs = map[string]bool{"examples": true, "testdata": true, "vendor": true, ".git": true, "node_modules": true}

// packages that are not part of the serving path: instrumenting them adds nothing
var skipInstr = map[string]bool{"assert": true, "tester": true}

var siteCount int
var siteTable []string

func instrument(path, rel string) []byte {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%s does not parse: %v", path, err)
	}
	var ins []insertion
	mark := func(p token.Pos, kind string) {
		pos := fset.Position(p)
		siteCount++
		siteTable = append(siteTable, fmt.Sprintf("%s:%d", rel, pos.Line))
		ins = append(ins, insertion{pos.Offset, fmt.Sprintf("verifsim.S(%d);", siteCount)})
	}
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			mark(s.Pos(), "s")
		}
	}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.FuncDecl:
			if b.Body == nil {
				return false
			}
			for _, c := range comments(b) {
				if strings.HasPrefix(c, "//go:nosplit") || strings.HasPrefix(c, "//go:linkname") {
					return false
				}
			}
		case *ast.SwitchStmt:
			if b.Body != nil {
				for _, c := range b.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
				used = true
			}
		case *ast.TypeSwitchStmt:
			for _, c := range b.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
			used = true
		case *ast.SelectStmt:
			for _, c := range b.Body.List {
				list(c.(*ast.CommClause).Body)
			}
			used = true
		case *ast.BlockStmt:
			if len(b.List) > 0 {
				if _, ok := b.List[0].(*ast.CaseClause); ok {
					return true
				}
				if _, ok := b.List[0].(*ast.CommClause); ok {
					return true
				}
			}
			// entry of the block: functions and loop bodies without statements
			siteCount++
			siteTable = append(siteTable, fmt.Sprintf("%s:%d", rel, fset.Position(b.Lbrace).Line))
			ins = append(ins, insertion{fset.Position(b.Lbrace).Offset + 1, fmt.Sprintf("verifsim.S(%d);", siteCount)})
			list(b.List)
			used = true
		}
		return true
	})
	if !used {
		return src
	}
	ins = append(ins, insertion{fset.Position(f.Name.End()).Offset, `; import verifsim "` + modulePath + `/verifsim"`})
	sort.SliceStable(ins, func(a, b int) bool { return ins[a].off < ins[b].off })
	var out []byte
	last := 0
	for _, i := range ins {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	out = append(out, src[last:]...)
	return out
}

func comments(d *ast.FuncDecl) []string {
	if d.Doc == nil {
		return nil
	}
	var r []string
	for _, c := range d.Doc.List {
		r = append(r, c.Text)
	}
	return r
}

var modulePath string

func replaceOnce(src, old, new, what string) string {
	if strings.Count(src, old) != 1 {
		die("%s: expected exactly one %q", what, old)
	}
	return strings.Replace(src, old, new, 1)
}

func main() {
	if len(os.Args) != 5 {
		die("usage: overlay REPO GOROOT SIMRT OUTDIR")
	}
	repo, goroot, simrt, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	replace := map[string]string{}
	n := 0
	emit := func(target string, data []byte) {
		n++
		p := filepath.Join(out, fmt.Sprintf("f%d_%s", n, filepath.Base(target)))
		if err := os.WriteFile(p, data, 0o644); err != nil {
			die("%v", err)
		}
		replace[target] = p
	}
	read := func(p string) string {
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		return string(b)
	}

	for _, l := range strings.Split(read(filepath.Join(repo, "go.mod")), "\n") {
		if strings.HasPrefix(l, "module ") {
			modulePath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	if modulePath == "" {
		die("no module path in go.mod")
	}

	// the library
	var files []string
	err := filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if p != repo && (skipDirs[info.Name()] || strings.HasPrefix(info.Name(), ".") || strings.HasPrefix(info.Name(), "_")) {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(repo, p)
			if skipInstr[rel] {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(files)
	for _, p := range files {
		rel, _ := filepath.Rel(repo, p)
		emit(p, instrument(p, rel))
	}
	emit(filepath.Join(repo, "verifsim", "verifsim.go"), []byte(read(filepath.Join(simrt, "verifsim.go.txt"))))

	// the runtime: map iteration order and hash seeds
	rnd := filepath.Join(goroot, "src/runtime/rand.go")
	s := read(rnd)
	s = replaceOnce(s, "func rand() uint64 {\n", `func rand() uint64 {
	if !VerifRealRand {
		VerifRandState += 0x9e3779b97f4a7c15
		z := VerifRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`, rnd)
	s = replaceOnce(s, "mp.cheaprand = uint32(rand())", "mp.cheaprand = uint32(bootstrapRand())", rnd)
	s = replaceOnce(s, "mp.cheaprand64 = rand()", "mp.cheaprand64 = bootstrapRand()", rnd)
	s += `
// VerifRandState and VerifRealRand belong to the simulator.
var VerifRandState uint64
var VerifRealRand bool

// VerifGoid identifies the running goroutine.
func VerifGoid() uint64 { return getg().goid }
`
	emit(rnd, []byte(s))
	alg := filepath.Join(goroot, "src/internal/runtime/maps/runtime_alg.go")
	s = read(alg)
	s = replaceOnce(s, "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1)) | 1", alg)
	s = replaceOnce(s, "key[i] = bootstrapRand()", "key[i] = 0xbf58476d1ce4e5b9 * uint64(i+3)", alg)
	emit(alg, []byte(s))

	// locks: a simulated thread that would block gives its turn to another one
	sema := filepath.Join(goroot, "src/runtime/sema.go")
	s = read(sema)
	patched := 0
	for _, f := range []string{"internal_sync_runtime_SemacquireMutex", "sync_runtime_SemacquireMutex", "sync_runtime_SemacquireRWMutexR", "sync_runtime_SemacquireRWMutex"} {
		head := "func " + f + "(addr *uint32, lifo bool, skipframes int) {\n"
		if strings.Count(s, "\n"+head) == 1 {
			s = strings.Replace(s, "\n"+head, "\n"+head+"\tif verifSem(addr) {\n\t\treturn\n\t}\n", 1)
			patched++
		}
	}
	if patched < 3 {
		die("%s: locks not found", sema)
	}
	s += `
// VerifSem is called when a goroutine has to wait for a lock. It returns true
// when the lock should be tried again, false when the goroutine should block.
var VerifSem func() bool

func verifSem(addr *uint32) bool {
	if VerifSem == nil {
		return false
	}
	for !cansemacquire(addr) {
		if !VerifSem() {
			return false
		}
	}
	return true
}
`
	emit(sema, []byte(s))
	mu := filepath.Join(goroot, "src/internal/sync/mutex.go")
	if _, err := os.Stat(mu); err != nil {
		mu = filepath.Join(goroot, "src/sync/mutex.go")
	}
	// who gets a lock does not depend on the real time it was waited for
	emit(mu, []byte(replaceOnce(read(mu), "starvationThresholdNs = 1e6", "starvationThresholdNs = 1 << 62", mu)))

	// with the race detector the Go scheduler draws random numbers that belong to the simulator
	proc := filepath.Join(goroot, "src/runtime/proc.go")
	emit(proc, []byte(replaceOnce(read(proc), "const randomizeScheduler = raceenabled", "const randomizeScheduler = false", proc)))

	// pools: what they hold does not depend on when the garbage collector runs
	pool := filepath.Join(goroot, "src/sync/pool.go")
	s = replaceOnce(read(pool), "\nfunc poolCleanup() {\n", "\nfunc poolCleanup() {\n\tif !verifRealPools {\n\t\treturn\n\t}\n", pool)
	s = strings.Replace(s, "if runtime_randn(4) == 0 {", "if verifRealPools && runtime_randn(4) == 0 {", 1)
	s += "\nvar verifRealPools bool\n"
	emit(pool, []byte(s))

	// the clock
	tm := filepath.Join(goroot, "src/time/time.go")
	s = read(tm)
	s = replaceOnce(s, "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n", "func Now() Time {\n\tsec, nsec, mono := verifNow()\n", tm)
	s = strings.Replace(s, "subMono(runtimeNano()-startNano, t.ext)", "subMono(verifNano()-startNano, t.ext)", 1)
	s = strings.Replace(s, "subMono(t.ext, runtimeNano()-startNano)", "subMono(t.ext, verifNano()-startNano)", 1)
	if strings.Count(s, "verifNano()") != 2 {
		die("time.Since/Until not patched")
	}
	emit(tm, []byte(s))
	emit(filepath.Join(goroot, "src/time/zz_verif.go"), []byte(`package time

// The simulator's clock: when VerifClock is set, Now, Since and Until read it.
var (
	VerifClock bool
	VerifWall  int64 // nanoseconds since the Unix epoch
	VerifMono  int64 // nanoseconds on the monotonic clock
	VerifReads int64 // number of times the clock was read
)

//go:norace
func verifNow() (sec int64, nsec int32, mono int64) {
	if !VerifClock {
		return runtimeNow()
	}
	VerifReads++
	sec = VerifWall / 1e9
	n := VerifWall % 1e9
	if n < 0 {
		n += 1e9
		sec--
	}
	return sec, int32(n), VerifMono + startNano
}

//go:norace
func verifNano() int64 {
	if !VerifClock {
		return runtimeNano()
	}
	VerifReads++
	return VerifMono + startNano
}
`))

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(siteTable, "\n")+"\n"), 0o644); err != nil {
		die("%v", err)
	}
	if siteCount >= 1<<14 {
		die("too many sites: %d", siteCount)
	}
}
