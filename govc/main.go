package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

var props = map[string]func(r *Report){}

func main() {
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Println("usage: govc check ID [substring of obligation]")
		os.Exit(2)
	}
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repoDir = d
	}
	id := os.Args[2]
	f := props[id]
	if f == nil {
		fmt.Println("no such check", id)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(18 << 30)
	if pf := os.Getenv("GOVC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Report{ID: id, Tier: tier, Seed: seed, Fns: map[string]int{}, Extra: map[string]interface{}{}, start: time.Now()}
	if len(os.Args) > 3 {
		r.only = os.Args[3]
	}
	r.Trusted = append(r.Trusted, baseTrust...)
	r.Assume = append(r.Assume, baseAssume...)
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Ob("internal", "govc", func() Res { panic(p) })
			}
		}()
		f(r)
	}()
	code := r.Finish()
	pprof.StopCPUProfile()
	os.Exit(code)
}

var baseTrust = []string{
	"govc: verification-condition generator over go/ssa and Plan 9 amd64 listings (this repository, /verif/govc)",
	"golang.org/x/tools go/packages and go/ssa v0.52.0, the Go type checker, go tool asm -S",
	"semantics of the amd64 instructions govc interprets",
	"z3 for path feasibility and side conditions",
	"contracts of the standard library intrinsics: math/bits, encoding/binary, crypto/subtle, errors, fmt",
}
var baseAssume = []string{
	"machine integers are modelled as fixed-width bit vectors (no mathematical-integer idealisation)",
	"single goroutine; pointer arguments that the contract does not list as aliased point to disjoint objects",
}

// each obligation function gets its own program view for one configuration
func newX(cfg string) *Exec {
	p, err := LoadProg(cfg)
	if err != nil {
		unsup("loading %s: %v", cfg, err)
	}
	return NewExec(p)
}

// oneRet requires exactly one returning outcome.
func oneRet(outs []*Outcome, err error) *Outcome {
	if err != nil {
		unsup("%v", err)
	}
	if len(outs) != 1 || outs[0].kind != "ret" {
		s := ""
		for _, o := range outs {
			s += o.kind + " " + o.msg + "; "
		}
		unsup("expected one returning path, got %d: %s", len(outs), s)
	}
	return outs[0]
}
