package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const toolsPath = "golang.org/x/tools"

// Functions below packages.Load start the go command and read its output; harnesses whose directory has a
// file STUB_LOAD provide the packages through this hook instead, symbolically and natively alike.
const loadStub = `package packages

// VerifLoad provides the packages of the harness.
var VerifLoad func(cfg *Config, patterns ...string) ([]*Package, error)

// Load of the verification environment.
func Load(cfg *Config, patterns ...string) ([]*Package, error) {
	if len(patterns) == 1 && patterns[0] == "std" {
		var std []*Package
		for _, p := range []string{"errors", "fmt", "io", "math/big", "net/http", "os", "strings", "sync", "time"} {
			std = append(std, &Package{ID: p, Name: p, PkgPath: p})
		}
		return std, nil
	}
	if VerifLoad == nil {
		panic("no packages")
	}
	return VerifLoad(cfg, patterns...)
}
`

// stubTools writes a copy of the parts of x/tools that are used, with Load replaced, and a go.mod that selects it.
func stubTools(repo string) (dir, modfile string, err error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", toolsPath)
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return "", "", fmt.Errorf("locating %s: %v", toolsPath, err)
	}
	src := strings.TrimSpace(string(out))
	dir, err = os.MkdirTemp("", "ndtools")
	if err != nil {
		return "", "", err
	}
	for _, d := range []string{"go/packages", "go/gcexportdata", "go/internal/gcimporter", "go/internal/packagesdriver", "go/ast/astutil", "go/types/typeutil", "internal/event", "internal/event/core", "internal/event/keys", "internal/event/label", "internal/gocommand", "internal/packagesinternal", "internal/typesinternal"} {
		fs, _ := filepath.Glob(filepath.Join(src, d, "*.go"))
		if err := os.MkdirAll(filepath.Join(dir, "tools", d), 0o777); err != nil {
			return dir, "", err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return dir, "", err
			}
			if d == "go/packages" {
				b = []byte(strings.Replace(string(b), "\nfunc Load(", "\nfunc realLoad(", 1))
			}
			if err := os.WriteFile(filepath.Join(dir, "tools", d, filepath.Base(f)), b, 0o666); err != nil {
				return dir, "", err
			}
		}
	}
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return dir, "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "tools", "go.mod"), b, 0o666); err != nil {
		return dir, "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "tools", "go", "packages", "zz_verif_load.go"), []byte(loadStub), 0o666); err != nil {
		return dir, "", err
	}
	b, err = os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return dir, "", err
	}
	modfile = filepath.Join(dir, "go.mod")
	if err := os.WriteFile(modfile, append(b, []byte("\nreplace "+toolsPath+" => "+filepath.Join(dir, "tools")+"\n")...), 0o666); err != nil {
		return dir, "", err
	}
	if b, err = os.ReadFile(filepath.Join(repo, "go.sum")); err != nil {
		return dir, "", err
	}
	return dir, modfile, os.WriteFile(filepath.Join(dir, "go.sum"), b, 0o666)
}
