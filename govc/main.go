package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

var specDir string

func openProgram(repo string) (*Program, error) {
	P, err := loadProgram(repo)
	if err != nil {
		return nil, err
	}
	P.loadKnown(filepath.Join(specDir, "functions.txt"))
	S, err := parseSpecs(specDir)
	if err != nil {
		return nil, err
	}
	P.specs = S
	for _, c := range S.contracts {
		if c.lemma {
			continue
		}
		fn := P.fn(c.fn)
		if fn == nil {
			continue // reported when the unit is verified
		}
		c.full = fnName(fn)
		if c.opts["scoped"] != "" {
			continue
		}
		if old := P.contracts[c.full]; old == nil || c.Modular || c.Merge {
			if old != nil {
				for k, v := range old.LoopInv {
					c.LoopInv[k] = append(c.LoopInv[k], v...)
				}
			}
			P.contracts[c.full] = c
		} else {
			for k, v := range c.LoopInv {
				old.LoopInv[k] = append(old.LoopInv[k], v...)
			}
		}
	}
	return P, nil
}

func main() {
	exe, _ := os.Executable()
	specDir = filepath.Join(filepath.Dir(exe), "..", "specs")
	if d := os.Getenv("GOVC_SPECS"); d != "" {
		specDir = d
	}
	looseInv = os.Getenv("GOVC_LOOSE") != ""
	looseInv = os.Getenv("GOVC_LOOSE") != ""
	repo := "/repo"
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repo = d
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: govc unit NAME... | worker NAME | check PROP | list | ssa FN | externals")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "externals":
		P, err := loadProgram(repo)
		die(err)
		P.listExternals()
	case "ssa":
		P, err := loadProgram(repo)
		die(err)
		fn := P.fn(os.Args[2])
		if fn == nil {
			die(fmt.Errorf("no function %s", os.Args[2]))
		}
		fn.WriteTo(os.Stdout)
		for _, a := range fn.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
	case "list":
		S, err := parseSpecs(specDir)
		die(err)
		for _, c := range S.contracts {
			fmt.Printf("%-40s %-50s %v %s:%d\n", c.name, c.fn, c.props, c.file, c.line)
		}
	case "unit":
		P, err := openProgram(repo)
		die(err)
		bad := 0
		for _, n := range os.Args[2:] {
			for _, c := range P.specs.contracts {
				match := c.name == n || strings.HasSuffix(n, "*") && strings.HasPrefix(c.name, n[:len(n)-1])
				for _, p := range c.props {
					if p == n {
						match = true
					}
				}
				if !match || c.NoVerify {
					continue
				}
				r := verifyUnit(P, c)
				r.print()
				if !r.ok() {
					bad++
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "functions":
		P, err := openProgram(repo)
		die(err)
		for _, n := range P.functionNames() {
			fmt.Println(n)
		}
	case "worker":
		// reads unit names from the command line, writes one JSON result per line
		P, err := openProgram(repo)
		if err != nil {
			json.NewEncoder(os.Stdout).Encode(&UnitResult{Unit: "load", Err: err.Error()})
			os.Exit(0)
		}
		for _, n := range os.Args[2:] {
			chunkI, chunkN = 0, 0
			if k := strings.Index(n, "@"); k > 0 {
				fmt.Sscanf(n[k+1:], "%d/%d", &chunkI, &chunkN)
				n = n[:k]
			}
			for _, c := range P.specs.contracts {
				if c.name == n && !c.NoVerify {
					r := verifyUnit(P, c)
					json.NewEncoder(os.Stdout).Encode(r)
				}
			}
		}
	case "check":
		os.Exit(checkProp(repo, os.Args[2]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
