package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obligation is one rule instance: a construct and the rule it must satisfy.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Status    string `json:"status"` // discharged, agreed, violated, undecided
	Note      string `json:"note,omitempty"`
}

func (o Obligation) Key() string { return o.Rule + "|" + o.Construct }

// Ctx is what a check works with.
type Ctx struct {
	P       *Prog
	eff     *Effects
	Tier    string
	Trace   bool
	Seed    int64
	Obs     []Obligation
	Stats   map[string]interface{}
	Floor   int
	Found   int // what the floor is compared with, when not the number of obligations
	Explain string
	Assume  []string
	Repo    string
	Verif   string
	seen    map[string]int
}

func (c *Ctx) Effects() *Effects {
	if c.eff == nil {
		c.eff = NewEffects(c.P)
	}
	return c.eff
}

func (c *Ctx) add(rule, construct, pos, status, note string) {
	k := rule + "|" + construct
	if i, ok := c.seen[k]; ok {
		// one obligation per rule and construct: the worst status wins
		rank := map[string]int{"discharged": 0, "agreed": 1, "undecided": 2, "violated": 3}
		if rank[status] > rank[c.Obs[i].Status] {
			c.Obs[i] = Obligation{rule, construct, pos, status, note}
		}
		return
	}
	c.seen[k] = len(c.Obs)
	c.Obs = append(c.Obs, Obligation{rule, construct, pos, status, note})
}

func (c *Ctx) ok(rule, construct string, pos token.Pos) {
	c.add(rule, construct, c.P.posn(pos), "discharged", "")
}

func (c *Ctx) bad(rule, construct string, pos token.Pos, f string, a ...interface{}) {
	c.add(rule, construct, c.P.posn(pos), "violated", fmt.Sprintf(f, a...))
}

func (c *Ctx) undecided(rule, construct string, pos token.Pos, f string, a ...interface{}) {
	c.add(rule, construct, c.P.posn(pos), "undecided", fmt.Sprintf(f, a...))
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where the known findings and the evidence are")
	dump := flag.String("dump", "", "debug dump")
	all := flag.Bool("all", false, "run every check, no evidence")
	verbose := flag.Bool("v", false, "print every obligation")
	worker := flag.String("worker", "", "serve: analyse specification instances on request")
	specs := flag.String("specs", "", "specification name prefix")
	only := flag.String("only", "", "only instances whose name contains this")
	trace := flag.Bool("trace", false, "trace the analysis")
	flag.Parse()
	if t := os.Getenv("VERIF_TIER"); t != "" && !isSet("tier") {
		*tier = t
	}
	var seed int64 = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	if *worker != "" {
		debug.SetGCPercent(800)
		if p := os.Getenv("LINCHECK_WPROF"); p != "" {
			f, _ := os.Create(p + strconv.Itoa(os.Getpid()))
			_ = pprof.StartCPUProfile(f)
			go func() { time.Sleep(57 * time.Second); pprof.StopCPUProfile() }()
		}
		os.Exit(specWorker(*repo, *verif, *tier, seed, *specs))
	}
	if *specs != "" {
		if p := os.Getenv("LINCHECK_PROF"); p != "" {
			f, _ := os.Create(p)
			_ = pprof.StartCPUProfile(f)
			rc := showSpecs(*repo, *verif, *tier, seed, *specs, *only, *trace, *verbose)
			pprof.StopCPUProfile()
			os.Exit(rc)
		}
		os.Exit(showSpecs(*repo, *verif, *tier, seed, *specs, *only, *trace, *verbose))
	}
	if *dump != "" {
		debugDump(*repo, *dump)
		return
	}
	if *all {
		var ids []string
		for id := range checks {
			if _, sp := specProps[id]; !sp || *only != "structural" {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		rc := 0
		p, err := Load(*repo, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, id := range ids {
			if runCheck(id, *tier, *repo, *verif, seed, *verbose, false, p) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	if checks[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(runCheck(*prop, *tier, *repo, *verif, seed, *verbose, true, nil))
}

func isSet(n string) bool {
	r := false
	flag.Visit(func(f *flag.Flag) {
		if f.Name == n {
			r = true
		}
	})
	return r
}

// knownFindings reads the "finding:" lines for the property: key -> description.
func knownFindings(verif, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		if i := strings.Index(rest, " :: "); i >= 0 {
			out[strings.TrimPrefix(rest[:i], "key=")] = rest[i+4:]
		}
	}
	return out
}

func runCheck(prop, tier, repo, verif string, seed int64, verbose, evidence bool, p *Prog) (rc int) {
	t0 := time.Now()
	c := &Ctx{Tier: tier, Trace: os.Getenv("LINCHECK_TRACE") != "", Seed: seed, Repo: repo, Verif: verif, Stats: map[string]interface{}{}, seen: map[string]int{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Obs = append(c.Obs, Obligation{"analysis", "lincheck", "-", "violated", fmt.Sprintf("the analysis failed: %v", r)})
				if verbose {
					debug.PrintStack()
				}
			}
		}()
		if p == nil {
			var err error
			p, err = Load(repo, nil)
			if err != nil {
				c.Obs = append(c.Obs, Obligation{"load", "package linear", "-", "violated", err.Error()})
				return
			}
		}
		c.P = p
		checks[prop](c)
	}()
	known := knownFindings(verif, prop)
	counts := map[string]int{}
	var viol []Obligation
	for _, o := range c.Obs {
		counts[o.Status]++
		if o.Status == "violated" {
			if d, ok := known[o.Key()]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
				counts["known"]++
				continue
			}
			viol = append(viol, o)
		}
	}
	found := c.Found
	if found == 0 {
		found = len(c.Obs)
	}
	if len(viol) == 0 && found < c.Floor {
		viol = append(viol, Obligation{"floor", "obligations", "-", "violated",
			fmt.Sprintf("only %d rule instances were found where at least %d are expected: the constructs the rule applies to are gone", found, c.Floor)})
	}
	if verbose {
		for _, o := range c.Obs {
			fmt.Printf("  %-10s %s %s %s %s\n", o.Status, o.Rule, o.Construct, o.Pos, o.Note)
		}
	}
	replay := filepath.Join(verif, "evidence", prop+".violations.txt")
	if evidence {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.Remove(replay)
	}
	if len(viol) > 0 {
		rc = 1
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "%s: rule %s: %s: %s\n", o.Pos, o.Rule, o.Construct, o.Note)
		}
		fmt.Print(sb.String())
		if evidence {
			os.WriteFile(replay, []byte(sb.String()+"reproduce: bash /verif/check.sh "+prop+"\n"), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d agreed, %d undecided, %d violated (%d known), %.1fs\n", prop, len(c.Obs),
		counts["discharged"], counts["agreed"], counts["undecided"], counts["violated"], counts["known"], time.Since(t0).Seconds())
	if evidence {
		rules := map[string]int{}
		for _, o := range c.Obs {
			rules[o.Rule]++
		}
		var samples, undec []Obligation
		step := len(c.Obs)/12 + 1
		for i := 0; i < len(c.Obs); i += step {
			samples = append(samples, c.Obs[i])
		}
		for _, o := range c.Obs {
			if o.Status == "undecided" {
				undec = append(undec, o)
			}
		}
		cov := map[string]interface{}{
			"explanation":       c.Explain,
			"obligations":       len(c.Obs),
			"discharged":        counts["discharged"],
			"agreed":            counts["agreed"],
			"undecided":         counts["undecided"],
			"obligations_rules": rules,
			"samples":           samples,
			"undecided_list":    undec,
		}
		if c.P != nil {
			cov["functions_analysed"] = len(c.P.Funcs)
		}
		for k, v := range c.Stats {
			cov[k] = v
		}
		ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
			"assumptions": c.Assume, "wall_s": time.Since(t0).Seconds(), "violations": len(viol)}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	}
	return rc
}
