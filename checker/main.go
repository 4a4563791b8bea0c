package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

type propMeta struct {
	id          string
	how         string
	technique   string
	assumptions []string
	run         func(p *Prog, r *Report)
	min         map[string]int // least number of obligations per rule: guards against a check that sees nothing
}

// deadline: when an exploration gives up. What it would have decided is reported as undecided.
var deadline = time.Now().Add(400 * time.Second)

var props = map[string]*propMeta{}

func register(m *propMeta) { props[m.id] = m }

func main() {
	debug.SetGCPercent(150)
	if s, err := time.ParseDuration(os.Getenv("METIS_LIMIT")); err == nil {
		deadline = time.Now().Add(s)
	}
	root := os.Getenv("METIS_VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	repo := os.Getenv("METIS_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 2 {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		os.Exit(2)
	}
	id := os.Args[1]
	if id == "all" {
		os.Exit(runAll(root, repo))
	}
	if id == "list" {
		type item struct{ ID, How, Technique string }
		var out []item
		for _, m := range props {
			out = append(out, item{m.id, m.how, m.technique})
		}
		sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	if id == "dump" {
		p, err := loadProg(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range os.Args[2:] {
			if f := p.fn(n); f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", n)
			}
		}
		return
	}
	if f := os.Getenv("METIS_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(40 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
			os.Exit(3)
		}()
	}
	m := props[id]
	if m == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	start := time.Now()
	p, err := loadProg(repo)
	os.Exit(runOne(root, p, err, m, start))
}

func runOne(root string, p *Prog, err error, m *propMeta, start time.Time) int {
	r := newReport(m.id)
	if err != nil {
		fmt.Printf("the program cannot be analysed: %v\n", err)
		return 2
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.fail("undecided", "analysis", "-", "the analysis failed: %v", e)
				if os.Getenv("METIS_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		m.run(p, r)
	}()
	for rule, n := range m.min {
		if r.obligs[rule] < n {
			r.fail("undecided", rule, "-", "only %d obligations of rule %q were found, at least %d are expected: the construct the rule is about is no longer recognised", r.obligs[rule], rule, n)
		}
	}
	return r.finish(root, m, start)
}

// runAll decides every property in one process (used during development).
func runAll(root, repo string) int {
	p, err := loadProg(repo)
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	bad := 0
	for _, id := range ids {
		fmt.Println("==", id)
		deadline = time.Now().Add(400 * time.Second)
		if runOne(root, p, err, props[id], time.Now()) != 0 {
			bad = 1
		}
	}
	_ = filepath.Join
	return bad
}
