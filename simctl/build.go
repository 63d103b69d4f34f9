package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// buildSim compiles the simulation binary from /repo's working tree.
func buildSim(repo, simsrc, work string) (bin string, sites int, level int, err error) {
	goroot := os.Getenv("SIM_GOROOT")
	if goroot == "" {
		out, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			return "", 0, 0, fmt.Errorf("go env GOROOT: %v", err)
		}
		goroot = strings.TrimSpace(string(out))
	}
	var lastErr error
	for level = 2; level >= 0; level-- {
		replace := map[string]string{}
		if err := patchStd(goroot, work, replace); err != nil {
			return "", 0, 0, err
		}
		in := &instrumenter{level: level}
		if err := in.repo(repo, work, replace); err != nil {
			return "", 0, 0, err
		}
		ov, _ := json.Marshal(map[string]interface{}{"Replace": replace})
		ovPath := filepath.Join(work, "overlay.json")
		if err := writeFile(ovPath, ov); err != nil {
			return "", 0, 0, err
		}
		// The module files are copied so that nothing is written next to them.
		mod := filepath.Join(work, "sim.mod")
		b, err := os.ReadFile(filepath.Join(simsrc, "go.mod"))
		if err != nil {
			return "", 0, 0, err
		}
		b = []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+repo))
		if err := writeFile(mod, b); err != nil {
			return "", 0, 0, err
		}
		if b, err := os.ReadFile(filepath.Join(simsrc, "go.sum")); err == nil {
			writeFile(filepath.Join(work, "sim.sum"), b)
		}
		bin = filepath.Join(work, "simbin")
		cmd := exec.Command("go", "build", "-overlay", ovPath, "-modfile", mod, "-tags", "faketime", "-trimpath", "-o", bin, ".")
		cmd.Dir = simsrc
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOEXPERIMENT=norandomizedheapbase64", "GOTOOLCHAIN=local", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
		out, err := cmd.CombinedOutput()
		if err == nil {
			return bin, in.site, level, nil
		}
		lastErr = fmt.Errorf("building the simulation: %v\n%s", err, out)
		if level == 2 {
			fmt.Fprintf(os.Stderr, "simctl: %v\n", lastErr)
		}
	}
	return "", 0, 0, lastErr
}
