// Command check decides one property: check ID [quick|thorough] [--replay FILE].
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"

	"verifmc/lib"
)

type check struct {
	level string
	f     func(*lib.Run)
}

var checks = map[string]check{}

func main() {
	if len(os.Args) < 2 {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("usage: check ID [quick|thorough] [--replay FILE]", ids)
		os.Exit(2)
	}
	r := &lib.Run{Prop: os.Args[1], Tier: os.Getenv("VERIF_TIER"), Verif: os.Getenv("VERIF_ROOT"), Repo: "/repo"}
	if r.Verif == "" {
		r.Verif = "/verif"
	}
	for i := 2; i < len(os.Args); i++ {
		switch a := os.Args[i]; a {
		case "quick", "thorough":
			r.Tier = a
		case "--replay":
			i++
			r.ReplayFile = os.Args[i]
		}
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.Budget = 400 * time.Second
	if r.Thorough() {
		r.Budget = 45 * time.Minute
	}
	if s := os.Getenv("GWV_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		r.Budget = time.Duration(n) * time.Second
	}
	c, ok := checks[r.Prop]
	if !ok {
		fmt.Println("no check for", r.Prop)
		os.Exit(2)
	}
	r.Level = c.level
	os.Exit(lib.Exec(r, c.f))
}
