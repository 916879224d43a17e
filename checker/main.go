package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	t0 := time.Now()
	repo := os.Getenv("KARBO_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("KARBO_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	verif, _ = filepath.Abs(verif)
	if len(os.Args) < 2 {
		fmt.Println("usage: karbocheck <property>... | all | list | dump <func>")
		os.Exit(2)
	}
	if os.Args[1] == "list" {
		for _, id := range sortedKeys(checks) {
			fmt.Println(id, checks[id].title)
		}
		return
	}
	p, err := Load(repo)
	switch os.Args[1] {
	case "dump":
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		dump(p, os.Args[2], os.Args[3:])
		return
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = sortedKeys(checks)
	}
	code := 0
	for _, id := range ids {
		if len(ids) > 1 {
			t0 = time.Now()
		}
		if c := runCheck(p, err, id, verif, t0); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func findFunc(p *Prog, name string) *ssa.Function {
	for _, f := range p.Funcs {
		if fname(f) == name {
			return f
		}
	}
	return nil
}

func dump(p *Prog, name string, opts []string) {
	fn := findFunc(p, name)
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	t0 := time.Now()
	cfg := chainCfg()
	switch os.Getenv("DUMPCFG") {
	case "p2p":
		cfg = p2pCfg("p2p.LevinProtocol.Reply", "cryptonote.BlockChain.AddBlock", "p2p.LevinProtocol.Notify", "p2p.LevinProtocol.Invoke")
	case "in":
		cfg = zoneFix(chainCfg(stubNames...), true, map[string]bool{"cryptonote.blockTransactionsValidator.IsFusionTransaction": os.Getenv("FUSION") == "1"})
	case "out":
		cfg = zoneFix(chainCfg(stubNames...), false, map[string]bool{"cryptonote.blockTransactionsValidator.IsFusionTransaction": os.Getenv("FUSION") == "1"})
	}
	cfg.Streams = os.Getenv("KC_STREAMS") != ""
	cfg.PathMode = cfg.Streams
	if os.Getenv("DUMPCFG") == "crypto" {
		cfg = cryptoCfg(cfg.Streams, strings.Fields(os.Getenv("KC_OPAQUE"))...)
	}
	if os.Getenv("DUMPCFG") == "levin" {
		cfg.Opaque = func(f *ssa.Function) bool { return fname(f) == "binary.Marshal" || fname(f) == "binary.Unmarshal" }
		cfg.Impure = func(n string) bool { return true }
		cfg.Track = func(n string) bool { return strings.HasPrefix(n, "net.Conn") || strings.HasPrefix(n, "io.") }
	}
	e := NewEng(p, cfg)
	args := e.rootArgs(fn)
	outs := e.Run(fn, args, newState())
	fmt.Println("time", time.Since(t0), "blocks", e.paths, "obs", len(e.obs), "problems", e.problems)
	if want := os.Getenv("KC_OBS"); want != "" {
		for _, o := range e.obs {
			if strings.Contains(o.name, want) {
				fmt.Println("-- obs", o.name, o.args, p.At(o.pos))
				for _, f := range o.st.facts.list() {
					fmt.Println("     ", f)
				}
			}
		}
	}
	for i, o := range outs {
		fmt.Printf("== outcome %d:", i)
		for _, r := range o.res {
			fmt.Print(" ", r)
		}
		fmt.Println()
		if len(opts) > 0 && !strings.Contains(opts[0], fmt.Sprint(i)) {
			continue
		}
		if os.Getenv("KC_STORE") != "" {
			for k, h := range o.st.store {
				fmt.Println("    S", k, "=", h)
			}
		}
		for _, f := range o.st.facts.list() {
			if f.kind == "IMP" && len(opts) < 2 {
				continue
			}
			fmt.Println("   ", f)
		}
	}
}

func (e *Eng) rootArgs(fn *ssa.Function) []*Term {
	var r []*Term
	for _, p := range fn.Params {
		r = append(r, e.in.mk(Term{op: OpParam, str: p.Name(), typ: p.Type()}))
	}
	return r
}
