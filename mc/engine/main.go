package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"
)

// Main is the command line: PROPERTY [quick|thorough] [harness], or replay FILE
func Main(props []*Property) {
	if len(os.Args) < 2 {
		for _, p := range props {
			fmt.Println(p.ID)
			for _, h := range p.Harnesses("quick") {
				fmt.Println("   ", h.Name, "-", h.About)
			}
		}
		return
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	r := &Runner{Dir: dir, Workers: runtime.GOMAXPROCS(0), Tier: "quick"}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		r.Tier = t
	}
	find := func(id string) *Property {
		for _, p := range props {
			if p.ID == id {
				return p
			}
		}
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
		return nil
	}
	if os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.Prop = find(f.Property)
		r.failures = map[string]*Failure{}
		os.Exit(r.Replay(&f))
	}
	r.Prop = find(os.Args[1])
	if len(os.Args) > 2 && os.Args[2] != "" {
		r.Tier = os.Args[2]
	}
	if len(os.Args) > 3 {
		r.Only = os.Args[3]
	}
	limit := 420 * time.Second
	if r.Tier == "thorough" {
		limit = 780 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_LIMIT_S")); err == nil && s > 0 {
		limit = time.Duration(s) * time.Second
	}
	r.End = time.Now().Add(limit)
	os.Exit(r.Main())
}
