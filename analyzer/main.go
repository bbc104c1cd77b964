package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

var checks = map[string]func(*Run){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: analyzer <property>... | all")
		os.Exit(2)
	}
	t0 := time.Now()
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	p, err := loadProg(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := 0
	for _, id := range ids {
		f := checks[id]
		if f == nil {
			fmt.Println("no check for", id)
			os.Exit(2)
		}
		r := newRun(p, id, tier)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("SA_PANIC") != "" {
						panic(x)
					}
					r.Violate("panic", "", "the analysis failed: %v", x)
				}
			}()
			f(r)
		}()
		if c := r.finish(t0); c > code {
			code = c
		}
		t0 = time.Now()
	}
	os.Exit(code)
}
