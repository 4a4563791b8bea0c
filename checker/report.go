package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	state     *State
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Entry     string   `json:"entry,omitempty"`
	Path      []string `json:"path,omitempty"`
}

func (v *Violation) key() string { return v.Rule + " " + v.Construct }

// Report collects what one check analysed and what it found.
type Report struct {
	prop       string
	violations []*Violation
	seen       map[string]bool
	obligs     map[string]int  // obligations by rule
	obligSeen  map[string]bool // distinct obligations
	samples    map[string][]string
	funcs      map[string]bool
	notes      []string
	assume     []string
	paths      int
	states     int
}

func newReport(prop string) *Report {
	return &Report{prop: prop, seen: map[string]bool{}, obligs: map[string]int{}, obligSeen: map[string]bool{},
		samples: map[string][]string{}, funcs: map[string]bool{}}
}

func (r *Report) add(v *Violation) {
	k := v.Rule + "|" + v.Construct + "|" + v.Pos + "|" + v.Msg
	if v.Rule != "undecided" {
		k = v.Rule + "|" + v.Construct + "|" + v.Pos
	}
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.violations = append(r.violations, v)
}

func (r *Report) addAll(vs []*Violation) {
	for _, v := range vs {
		r.add(v)
	}
}

func (r *Report) fail(rule, construct, pos, format string, a ...any) {
	r.add(&Violation{Rule: rule, Construct: construct, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}

// oblig counts one distinct obligation of a rule.
func (r *Report) oblig(rule, what string) {
	k := rule + "|" + what
	if r.obligSeen[k] {
		return
	}
	r.obligSeen[k] = true
	r.obligs[rule]++
	if len(r.samples[rule]) < 400 {
		r.samples[rule] = append(r.samples[rule], what)
	}
}

func (r *Report) note(format string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(format, a...)) }

// use merges the coverage of one exploration.
func (r *Report) use(x *Exec) {
	for f := range x.inlined {
		r.funcs[fnName(f)] = true
	}
	r.paths += x.nPaths
	r.states += x.steps
}

type known struct{ prop, key, text string }

func loadKnown(root string) []known {
	f, err := os.Open(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var ks []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		k := known{}
		if i := strings.Index(rest, "property="); i >= 0 {
			k.prop = strings.Fields(rest[i+len("property="):])[0]
		}
		if i := strings.Index(rest, `key="`); i >= 0 {
			r2 := rest[i+5:]
			if j := strings.Index(r2, `"`); j >= 0 {
				k.key = r2[:j]
				k.text = strings.TrimSpace(r2[j+1:])
			}
		}
		ks = append(ks, k)
	}
	return ks
}

// finish writes the evidence and prints the verdict; it returns the exit status.
func (r *Report) finish(root string, meta *propMeta, start time.Time) int {
	ks := loadKnown(root)
	var open []*Violation
	var undecided []string
	undSeen := map[string]bool{}
	for _, v := range r.violations {
		if v.Rule == "undecided" {
			s := fmt.Sprintf("%s at %s: %s", v.Construct, v.Pos, v.Msg)
			if !undSeen[s] {
				undSeen[s] = true
				undecided = append(undecided, s)
			}
			continue
		}
		matched := false
		for _, k := range ks {
			if k.prop == r.prop && k.key == v.key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.prop, v.key(), k.text)
				matched = true
				break
			}
		}
		if !matched {
			open = append(open, v)
		}
	}
	total := 0
	var rules []string
	for k, n := range r.obligs {
		total += n
		rules = append(rules, k)
	}
	sort.Strings(rules)
	perRule := map[string]any{}
	for _, k := range rules {
		s := append([]string{}, r.samples[k]...)
		sort.Strings(s)
		if len(s) > 60 {
			s = s[:60]
		}
		perRule[k] = map[string]any{"obligations": r.obligs[k], "examples": s}
	}
	fs := make([]string, 0, len(r.funcs))
	for f := range r.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if len(os.Args) > 2 && (os.Args[2] == "quick" || os.Args[2] == "thorough") {
		tier = os.Args[2]
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	bad := map[string]bool{}
	for _, v := range open {
		bad[v.key()] = true
	}
	disch := total - len(bad)
	if disch < 0 {
		disch = 0
	}
	replay := ""
	if len(open) > 0 {
		h := sha1.Sum([]byte(open[0].key() + open[0].Pos))
		replay = filepath.Join(root, "evidence", fmt.Sprintf("%s-%x.replay.txt", r.prop, h[:4]))
		var sb strings.Builder
		for _, v := range open {
			fmt.Fprintf(&sb, "%s: %s\n  construct: %s\n  at: %s\n", v.Rule, v.Msg, v.Construct, v.Pos)
			if v.Entry != "" {
				fmt.Fprintf(&sb, "  explored from: %s\n", v.Entry)
			}
			for _, p := range v.Path {
				fmt.Fprintf(&sb, "    %s\n", p)
			}
		}
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	vs := []string{}
	for _, v := range open {
		vs = append(vs, fmt.Sprintf("%s at %s: %s (%s)", v.Rule, v.Pos, v.Msg, v.Construct))
	}
	ev := map[string]any{
		"property": r.prop,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":    meta.how,
			"obligations":    total,
			"discharged":     disch,
			"checker_cmd":    strings.Join(os.Args, " "),
			"trusted_base":   trustedBase,
			"rules":          perRule,
			"functions":      fs,
			"n_functions":    len(fs),
			"abstract_paths": r.paths,
			"abstract_steps": r.states,
			"notes":          r.notes,
		},
		"assumptions": append(append([]string{}, meta.assumptions...), r.assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  vs,
		"undecided":   undecided,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", r.prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, k := range rules {
		fmt.Printf("%s: %d obligations\n", k, r.obligs[k])
	}
	// what the analysis could not follow is reported, but it is not a violation
	for _, u := range undecided {
		fmt.Printf("UNDECIDED %s\n", u)
	}
	if len(open) == 0 {
		fmt.Printf("property %s: %d obligations hold, %d functions, %d abstract paths (%.1fs)\n", r.prop, total, len(fs), r.paths, time.Since(start).Seconds())
		return 0
	}
	for _, v := range open {
		fmt.Printf("%s at %s: %s [%s]\n", v.Rule, v.Pos, v.Msg, v.Construct)
		for _, p := range v.Path {
			fmt.Printf("    %s\n", p)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
	return 1
}

var trustedBase = []string{
	"go/types and golang.org/x/tools/go/ssa build a faithful SSA form of the compiled source",
	"the abstract transfer functions of /verif/checker (exec.go, loop.go, state.go, lin.go)",
	"the models of library calls in model.go",
}

func (r *Report) noteFn(f *ssa.Function) { r.funcs[fnName(f)] = true }
