package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var verifDir = "/verif"

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check ID | run TARGET ID | list")
		os.Exit(2)
	}
	if v := os.Getenv("GOVC_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("GOVC_VERIF"); v != "" {
		verifDir = v
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2]))
	case "list":
		db, err := loadSpecs(verifDir + "/contracts")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		ids := map[string][]string{}
		for _, t := range db.Targets {
			seen := map[string]bool{}
			for _, c := range append(append([]*Clause{}, t.Ensures...), t.Covers...) {
				seen[c.ID] = true
			}
			for _, p := range strings.Fields(t.Panics) {
				seen[p] = true
			}
			for i := range seen {
				ids[i] = append(ids[i], t.Name)
			}
		}
		var ks []string
		for k := range ids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, len(ids[k]), strings.Join(ids[k], " | "))
		}
	case "run":
		// govc run TARGET-substring ID
		w, err := loadWorld(verifDir + "/contracts")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, e := range w.loadErrs {
			fmt.Println("load:", e)
		}
		ms := 3000
		if v := os.Getenv("GOVC_MS"); v != "" {
			ms, _ = strconv.Atoi(v)
		}
		id := os.Args[3]
		var ts []*Target
		for _, t := range w.db.Targets {
			if strings.Contains(t.Name, os.Args[2]) && (id == "all" || hasID(&t.Contract, id)) {
				ts = append(ts, t)
			}
		}
		type job struct {
			t  *Target
			id string
		}
		var jobs []job
		for _, t := range ts {
			ids := []string{id}
			if id == "all" {
				ids = idsOf(t)
			}
			for _, i := range ids {
				jobs = append(jobs, job{t, i})
			}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, runtime.NumCPU())
		bad := 0
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				r := w.runTarget(j.t, j.id, 400*time.Second, ms, os.Getenv("GOVC_REVEAL") != "")
				mu.Lock()
				defer mu.Unlock()
				if !printResult(j.id, r) {
					bad++
				}
			}()
		}
		wg.Wait()
		fmt.Println("jobs", len(jobs), "bad", bad)
		if bad > 0 {
			os.Exit(1)
		}
	}
}

func idsOf(t *Target) []string {
	seen := map[string]bool{}
	for _, c := range append(append([]*Clause{}, t.Ensures...), t.Covers...) {
		seen[c.ID] = true
	}
	for _, p := range strings.Fields(t.Panics) {
		seen[p] = true
	}
	if t.Locks != "" {
		seen[t.Locks] = true
	}
	var r []string
	for i := range seen {
		r = append(r, i)
	}
	sort.Strings(r)
	return r
}

func printResult(id string, r *Result) bool {
	ok := len(r.Fails) == 0 && len(r.Incomplete) == 0 && r.Err == ""
	mark := "ok  "
	if !ok {
		mark = "FAIL"
	}
	fmt.Printf("%s %s %s: obl %d/%d returns %d loops %d %v\n", mark, id, r.Unit, r.Disch, r.Obl, r.Paths, r.Loops, r.Wall.Round(time.Millisecond))
	if r.Err != "" {
		fmt.Println("   ERR", r.Err)
	}
	for i, m := range r.Incomplete {
		fmt.Println("   incomplete:", m)
		if debug {
			for _, t := range r.IncTrail[i] {
				fmt.Println("       ", t)
			}
		}
	}
	if os.Getenv("GOVC_ASSUMED") != "" {
		for _, a := range sortedSet(r.Assumed) {
			fmt.Println("      assumed", a)
		}
		for _, a := range sortedSet(r.Inlined) {
			fmt.Println("      inlined", a)
		}
	}
	n := 0
	for _, f := range r.Fails {
		if n++; n > 6 && !debug {
			fmt.Println("   ... and", len(r.Fails)-6, "more")
			break
		}
		fmt.Printf("   %s [%s] %s  (%s) %s\n", f.Clause, f.Kind, f.Msg, f.Pos, f.Solver)
		if debug || os.Getenv("GOVC_TRAIL") != "" {
			for _, t := range f.Trail {
				fmt.Println("       ", t)
			}
			for _, e := range f.Events {
				fmt.Println("        ev", e)
			}
			for _, m := range f.Model {
				fmt.Println("        m ", m)
			}
		}
	}
	return ok
}
