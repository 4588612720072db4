// vpcheck decides the properties of /verif/properties.jsonl by static analysis
// of the Go source of chzyer/readline.  It never runs the analysed code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Finding struct {
	Key   string // rule | function | construct (no line numbers)
	Rule  string
	Pos   string
	Msg   string
	Trace []string
}

type Report struct {
	Prop        string
	Tier        string
	Findings    []Finding
	Errors      []string // anchors that do not resolve, floors not reached, engine limits
	Obligations int
	Discharged  int
	Counts      map[string]int
	Samples     []string
	Rules       []string
	Assumes     []string
	seenKey     map[string]bool
}

func (r *Report) add(rule, fn, construct, pos, msg string, trace []string) {
	k := rule + " | " + fn + " | " + construct
	if r.seenKey[k] {
		return
	}
	r.seenKey[k] = true
	r.Findings = append(r.Findings, Finding{Key: k, Rule: rule, Pos: pos, Msg: msg, Trace: trace})
}
func (r *Report) errf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, e := range r.Errors {
		if e == s {
			return
		}
	}
	r.Errors = append(r.Errors, s)
}
func (r *Report) count(k string, n int) { r.Counts[k] += n }
func (r *Report) sample(format string, a ...interface{}) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// floor fails the check when fewer instances than confirmed by hand were analysed.
func (r *Report) floor(k string, min int) {
	if r.Counts[k] < min {
		r.errf("only %d %s analysed, expected at least %d", r.Counts[k], k, min)
	}
}

type checkFn func(*Report)

var checks = map[string]checkFn{}

var (
	repoDir  string
	verifDir string
	verbose  bool
)

func main() {
	prop := flag.String("prop", "", "property id")
	flag.StringVar(&repoDir, "repo", "/repo", "tree to analyse")
	flag.StringVar(&verifDir, "verif", "/verif", "where evidence and replay files go")
	flag.BoolVar(&verbose, "v", false, "print every obligation")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	debug.SetGCPercent(400)
	fn := checks[*prop]
	if fn == nil {
		fmt.Fprintf(os.Stderr, "vpcheck: unknown property %q\n", *prop)
		os.Exit(2)
	}
	r := &Report{Prop: *prop, Tier: *tier, Counts: map[string]int{}, seenKey: map[string]bool{}}
	start := time.Now()
	if f := os.Getenv("VP_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); w.Close() })
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VP_PANIC") != "" {
					panic(e)
				}
				r.errf("analysis failed: %v", e)
				fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
			}
		}()
		fn(r)
	}()
	os.Exit(finish(r, time.Since(start)))
}

func knownFindings(prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" ")
		p := strings.SplitN(l, " :: ", 2)
		what := p[0]
		if len(p) == 2 {
			what = p[1]
		}
		m[strings.TrimPrefix(p[0], "key=")] = what
	}
	return m
}

func finish(r *Report, d time.Duration) int {
	known := knownFindings(r.Prop)
	var viol []Finding
	for _, f := range r.Findings {
		if what, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Prop, what, f.Key)
			continue
		}
		viol = append(viol, f)
	}
	for _, e := range r.Errors {
		viol = append(viol, Finding{Key: "undecided | " + e, Rule: "undecided", Msg: e})
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	counts := map[string]interface{}{}
	for k, v := range r.Counts {
		counts[strings.ReplaceAll(k, " ", "_")] = v
	}
	keys := make([]string, 0, len(r.Counts))
	for k := range r.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var ks []string
	for _, k := range keys {
		ks = append(ks, fmt.Sprintf("%d %s", r.Counts[k], k))
	}
	samples := []interface{}{}
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	cov := map[string]interface{}{
		"explanation": fmt.Sprintf("static analysis of the source in %s; analysed on this run: %s; obligations raised %d, discharged %d. Rules: %s", repoDir, strings.Join(ks, ", "), r.Obligations, r.Discharged, strings.Join(r.Rules, " || ")),
		"obligations": r.Obligations,
		"discharged":  r.Discharged,
		"analysed":    counts,
		"samples":     samples,
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assumes, "wall_s": d.Seconds(), "violations": len(viol),
	}
	if r.Assumes == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0777)
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %s; obligations %d, discharged %d, %.1fs\n", r.Prop, strings.Join(ks, ", "), r.Obligations, r.Discharged, d.Seconds())
	if len(viol) == 0 {
		return 0
	}
	replay := filepath.Join(dir, r.Prop+".violation.txt")
	var sb strings.Builder
	for i, f := range viol {
		fmt.Fprintf(&sb, "[%d] %s: %s\n    key: %s\n", i+1, f.Pos, f.Msg, f.Key)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "      %s\n", t)
		}
	}
	os.WriteFile(replay, []byte(sb.String()), 0666)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
