package main

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath  = "github.com/buypal/oapi-go"
	zzPrefix = modPath + "/internal/zzverif"
	ndPath   = zzPrefix + "/nd"
)

type Engine struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	solverBin string
	tier      string
	wantCov   bool
	rtErrT    types.Type
	repo      string
	verif     string
	seedV     int64
	known     map[string]bool

	poisonMu sync.Mutex
	poisons  map[string]map[string]int
	intr     map[string]intrinsicFn
	buildMu  sync.Mutex
	typeMu   sync.Mutex
	tcache   map[string]types.Type
	stubDir  string
	modfile  string
	godebug  map[string]string // settings of the Go runtime and library, by default of the module
}

// readGodebug asks for the settings the go command builds main packages of the repository with.
func (e *Engine) readGodebug() {
	e.godebug = map[string]string{}
	cmd := exec.Command("go", "list", "-f", "{{.DefaultGODEBUG}}", "./cmd/...")
	cmd.Dir, cmd.Env = e.repo, goEnv()
	b, _ := cmd.Output()
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		b = b[:i]
	}
	for _, s := range strings.Split(string(b), ",") {
		if k, v, ok := strings.Cut(s, "="); ok {
			e.godebug[k] = v
		}
	}
}

type intrinsicFn func(m *Machine, fr *frame, args []Val) Val

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "HOME", "PATH", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "CGO_ENABLED", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"HOME=/root", "PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "CGO_ENABLED=0", "GOWORK=off")
}

// harnessOverlay maps virtual files under /repo to files of /verif/harness/<name>.
// Files named inpkg_*.go carry a first-line directive "//inpkg <dir under /repo>".
func harnessOverlay(repo, verif, name string) (map[string]string, []string, error) {
	ov := map[string]string{}
	add := func(srcDir, dstDir string) error {
		fs, err := filepath.Glob(filepath.Join(srcDir, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			first := strings.SplitN(string(b), "\n", 2)[0]
			if strings.HasPrefix(first, "// inpkg ") {
				d := strings.TrimSpace(strings.TrimPrefix(first, "// inpkg "))
				ov[filepath.Join(repo, d, "zz_verif_"+filepath.Base(f))] = f
				continue
			}
			ov[filepath.Join(dstDir, filepath.Base(f))] = f
		}
		return nil
	}
	if err := add(filepath.Join(verif, "harness", "nd"), filepath.Join(repo, "internal/zzverif/nd")); err != nil {
		return nil, nil, err
	}
	hd := filepath.Join(verif, "harness", name)
	if _, err := os.Stat(filepath.Join(hd, "STUB_LOAD")); err == nil {
		if err := add(filepath.Join(verif, "harness", "world"), filepath.Join(repo, "internal/zzverif/world")); err != nil {
			return nil, nil, err
		}
	}
	if err := add(hd, filepath.Join(repo, "internal/zzverif", name)); err != nil {
		return nil, nil, err
	}
	var pats []string
	seen := map[string]bool{}
	for dst := range ov {
		d := filepath.Dir(dst)
		if strings.HasSuffix(d, "/zzverif/nd") || strings.HasSuffix(d, "/zzverif/world") || seen[d] {
			continue
		}
		seen[d] = true
		rel, _ := filepath.Rel(repo, d)
		pats = append(pats, "./"+rel)
	}
	if len(pats) == 0 {
		return nil, nil, fmt.Errorf("no harness files in %s", hd)
	}
	return ov, pats, nil
}

func (e *Engine) load(name string) error {
	ov, pats, err := harnessOverlay(e.repo, e.verif, name)
	if err != nil {
		return err
	}
	content := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		content[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     e.repo,
		Env:     goEnv(),
		Overlay: content,
	}
	if _, err := os.Stat(filepath.Join(e.verif, "harness", name, "STUB_LOAD")); err == nil {
		if e.stubDir, e.modfile, err = stubTools(e.repo); err != nil {
			return err
		}
		cfg.BuildFlags = []string{"-modfile=" + e.modfile}
	}
	e.readGodebug()
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	e.prog = prog
	e.pkgs = roots
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErrT = t.Type()
		}
	}
	return nil
}

func (e *Engine) ensureBuilt(fn *ssa.Function) {
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	if !(p == modPath || strings.HasPrefix(p, modPath+"/")) || strings.HasPrefix(p, zzPrefix) {
		return false
	}
	if pos := fn.Pos(); pos.IsValid() {
		if strings.HasPrefix(filepath.Base(e.prog.Fset.Position(pos).Filename), "zz_verif_") {
			return false
		}
	}
	return true
}

func (e *Engine) skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "internal/poll", "net", "reflect", "internal/cpu", "internal/godebug", "time", "os/signal", "os/exec", "crypto/rand", "math/rand", "internal/godebugs",
		"encoding/gob", "log", "testing", "encoding/json", "gopkg.in/yaml.v2", "fmt", "internal/testlog", "os/user", "internal/syscall/unix", "golang.org/x/sys/unix", "golang.org/x/tools/go/packages", "golang.org/x/tools/internal/gocommand", "internal/runtime/maps", "internal/abi", "golang.org/x/tools/internal/event", "golang.org/x/tools/internal/event/core", "golang.org/x/tools/internal/event/keys", "golang.org/x/tools/internal/event/label", "internal/reflectlite":
		return true
	}
	return strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/")
}

func (e *Engine) notePoison(pkg, why string) {
	e.poisonMu.Lock()
	defer e.poisonMu.Unlock()
	if e.poisons == nil {
		e.poisons = map[string]map[string]int{}
	}
	if e.poisons[pkg] == nil {
		e.poisons[pkg] = map[string]int{}
	}
	e.poisons[pkg][why]++
}

func (e *Engine) intrinsic(name string, fn *ssa.Function) (intrinsicFn, bool) {
	if f, ok := e.intr[name]; ok {
		return f, true
	}
	return nil, false
}

// lookupType finds a named type of a loaded package.
func (e *Engine) lookupType(pkg, name string) types.Type {
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	k := pkg + "." + name
	if t, ok := e.tcache[k]; ok {
		return t
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		for _, q := range e.prog.AllPackages() {
			if q.Pkg.Path() == pkg {
				p = q
			}
		}
	}
	if p == nil {
		panic(engineErr("package not loaded: " + pkg))
	}
	t := p.Type(name)
	if t == nil {
		panic(engineErr("no type " + k))
	}
	if e.tcache == nil {
		e.tcache = map[string]types.Type{}
	}
	e.tcache[k] = t.Type()
	return t.Type()
}
