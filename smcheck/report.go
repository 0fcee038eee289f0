package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation: keyed by rule and construct, not line.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

func (f Finding) Key() string { return f.Rule + " @ " + f.Construct }

// Report collects what one property's check analysed and found.
type Report struct {
	Prop     string
	Tier     string
	Findings []Finding
	Oblig    int // obligations examined
	Disch    int // discharged
	Counts   map[string]int
	Samples  []string
	Done     []string // constructs decided
	Rules    []string
	Assume   []string
	Explain  string
	start    time.Time
	seen     map[string]bool
}

func NewReport(prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, Counts: map[string]int{}, start: time.Now(), seen: map[string]bool{}}
}

func (r *Report) Rule(s string) { r.Rules = append(r.Rules, s) }
func (r *Report) OK(sample string) {
	r.Oblig++
	r.Disch++
	r.Done = append(r.Done, sample)
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, sample)
	}
}
func (r *Report) Bad(rule, construct, where, detail string) {
	r.Oblig++
	f := Finding{rule, construct, where, detail}
	if r.seen[f.Key()] {
		return
	}
	r.seen[f.Key()] = true
	r.Findings = append(r.Findings, f)
}

// Min fails the check if fewer instances than confirmed by hand were analysed.
func (r *Report) Min(what string, got, min int) {
	r.Counts[what] = got
	if got < min {
		r.Bad("instance-count", what, "-", fmt.Sprintf("only %d instances of %q were analysed; at least %d exist in the reviewed tree, so the rule would pass vacuously", got, what, min))
	}
}

func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		// known: property=C05 key=<rule @ construct> what=<text>
		if !strings.HasPrefix(line, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+prop+" key=")
		if i := strings.Index(rest, " what="); i >= 0 {
			out[rest[:i]] = rest[i+6:]
		}
	}
	return out
}

// Finish writes evidence and prints the verdict; returns the exit code.
func (r *Report) Finish(verif string) int {
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), r.Prop)
	var viol []Finding
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
	for _, f := range r.Findings {
		if w, ok := known[f.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, w)
			continue
		}
		viol = append(viol, f)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":            r.Explain,
		"rules":                  r.Rules,
		"obligations_examined":   r.Oblig,
		"obligations_discharged": r.Disch,
		"instances":              r.Counts,
		"samples":                r.Samples,
	}
	if len(viol) > 0 {
		cov["findings"] = viol
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(viol),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	evp := filepath.Join(verif, "evidence", r.Prop+".json")
	if err := os.WriteFile(evp, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations examined, %d discharged, %d findings (%d listed as known)\n", r.Prop, r.Oblig, r.Disch, len(r.Findings), len(r.Findings)-len(viol))
	if len(viol) == 0 {
		return 0
	}
	for _, f := range viol {
		h := sha1.Sum([]byte(f.Key()))
		rp := filepath.Join(verif, "evidence", fmt.Sprintf("%s-%x.txt", r.Prop, h[:4]))
		os.WriteFile(rp, []byte(fmt.Sprintf("property: %s\nrule: %s\nconstruct: %s\nwhere: %s\n\n%s\n\nreplay: ./check.sh %s %s\n", r.Prop, f.Rule, f.Construct, f.Where, f.Detail, r.Prop, r.Tier)), 0o644)
		fmt.Printf("  %s  [%s] %s\n    %s\n", f.Where, f.Rule, f.Construct, strings.ReplaceAll(f.Detail, "\n", "\n    "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	}
	return 1
}
