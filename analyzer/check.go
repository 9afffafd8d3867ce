package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed tables
var tableFS embed.FS

// Finding is one construct that breaks a rule.
type Finding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"at"`
	Msg       string `json:"what"`
}

func (f Finding) key() string { return f.Rule + "|" + f.Construct }

// Rule is one static rule; a property is decided by one or more of them.
type Rule struct {
	Name string
	Doc  string
	Run  func(c *Check)
}

// Property couples an id with its rules and the part of the confirmed relation it owns.
type Property struct {
	ID    string
	Scope []Scope
	Rules []Rule
	Tmpl  []TScope
}

// Scope selects functions (by file and by name) and, of those, effects by key.
type Scope struct {
	Files string // regexp over the repository-relative file
	Funcs string // regexp over the function name
	Not   string // regexp over the function name, excluded
	Keys  string // regexp over the effect key
}

// Check is one run of one property.
type Check struct {
	p     *Prog
	rel   *relCmp
	base  *Baseline
	ev    *Eval
	prop  *Property
	rule  string
	out   []Finding
	count map[string]int
	notes map[string][]string
	seen  map[string]bool
}

func (c *Check) ob(n int) { c.count[c.rule] += n }

func (c *Check) note(s string) { c.notes[c.rule] = append(c.notes[c.rule], s) }

func (c *Check) report(construct, pos, msg string) {
	f := Finding{c.prop.ID, c.rule, construct, pos, msg}
	k := f.key() + "|" + msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.out = append(c.out, f)
}

type knownFinding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func loadKnown(dir string) (knownFile, error) {
	var k knownFile
	raw, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		return k, err
	}
	return k, json.Unmarshal(raw, &k)
}

func propByID(id string) *Property {
	for i := range properties {
		if properties[i].ID == id {
			return &properties[i]
		}
	}
	return nil
}

// run executes all rules of a property on a loaded program.
func runProperty(p *Prog, base *Baseline, rel *relCmp, pr *Property) *Check {
	c := &Check{p: p, rel: rel, base: base, prop: pr, count: map[string]int{}, notes: map[string][]string{}, seen: map[string]bool{}}
	c.ev = newEval(p, knownFn(p, base))
	for _, r := range pr.Rules {
		c.rule = r.Name
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.report("analysis", "-", fmt.Sprintf("the analysis could not be completed: %v %s", e, firstLines(string(debug.Stack()), 12)))
				}
			}()
			r.Run(c)
		}()
	}
	if len(pr.Scope) > 0 {
		c.rule = "confirmed-relation"
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.report("analysis", "-", fmt.Sprintf("the analysis could not be completed: %v %s", e, firstLines(string(debug.Stack()), 12)))
				}
			}()
			c.relation()
		}()
	}
	if len(pr.Tmpl) > 0 {
		c.rule = "emitted-text"
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.report("analysis", "-", fmt.Sprintf("the analysis could not be completed: %v %s", e, firstLines(string(debug.Stack()), 12)))
				}
			}()
			c.templateRelation()
		}()
	}
	fl := loadFloors()[pr.ID]
	for r, n := range fl {
		if c.count[r]*10 < n*6 {
			c.rule = r
			c.report("instances", "-", fmt.Sprintf("the rule found only %d instances to decide, %d were confirmed: its subject is no longer where it can be analysed", c.count[r], n))
		}
	}
	return c
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

var floorsMemo map[string]map[string]int

func loadFloors() map[string]map[string]int {
	if floorsMemo == nil {
		floorsMemo = map[string]map[string]int{}
		if raw, err := tableFS.ReadFile("tables/floors.json"); err == nil {
			_ = json.Unmarshal(raw, &floorsMemo)
		}
	}
	return floorsMemo
}

type scopeRE struct{ files, funcs, not, keys *regexp.Regexp }

func rx(s string) *regexp.Regexp {
	if s == "" {
		return nil
	}
	return regexp.MustCompile(s)
}

func (c *Check) relation() {
	var res []scopeRE
	for _, s := range c.prop.Scope {
		res = append(res, scopeRE{rx(s.Files), rx(s.Funcs), rx(s.Not), rx(s.Keys)})
	}
	ns := make([]string, 0, len(c.base.Funcs))
	for n := range c.base.Funcs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		f := c.base.Files[n]
		var sel []scopeRE
		for _, s := range res {
			if (s.files == nil || s.files.MatchString(f)) && (s.funcs == nil || s.funcs.MatchString(n)) && (s.not == nil || !s.not.MatchString(n)) {
				sel = append(sel, s)
			}
		}
		if len(sel) == 0 {
			continue
		}
		match := func(k string) bool {
			for _, s := range sel {
				if s.keys == nil || s.keys.MatchString(k) {
					return true
				}
			}
			return false
		}
		k := 0
		for _, e := range c.base.Funcs[n] {
			if match(e.Key) {
				k++
			}
		}
		if k == 0 {
			continue
		}
		c.ob(k)
		for _, d := range c.rel.compareMemo(n) {
			if match(d.Key) {
				c.report(n+": "+d.Key, d.Pos, d.Why)
			}
		}
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

// evidence writes /verif/evidence/<id>.json.
func evidence(c *Check, id string, viol, known int, wall float64, assumptions []string) error {
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var b strings.Builder
	total := 0
	if c != nil {
		var rs []string
		for r := range c.count {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		for _, r := range rs {
			fmt.Fprintf(&b, "rule %s: %d obligations", r, c.count[r])
			total += c.count[r]
			if n := c.notes[r]; len(n) > 0 {
				fmt.Fprintf(&b, " (%s)", strings.Join(n, "; "))
			}
			for _, ru := range c.prop.Rules {
				if ru.Name == r {
					fmt.Fprintf(&b, " - %s", ru.Doc)
				}
			}
			b.WriteString(". ")
		}
		fmt.Fprintf(&b, "Analysed the type-checked SSA form of %d named functions in %d packages of the current tree (and its templates where a rule says so); %d obligations decided, %d undischarged, %d of them listed as known findings. Nothing was executed.",
			len(c.p.Funcs), len(c.p.Pkgs), total, viol+known, known)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage":   map[string]any{"explanation": b.String(), "obligations": total},
		"wall_s":     wall,
		"violations": viol, "assumptions": assumptions,
	}
	raw, _ := json.MarshalIndent(ev, "", " ")
	return os.WriteFile(filepath.Join(dir, id+".json"), raw, 0o644)
}

var commonAssumptions = []string{
	"go/types, the Go SSA construction and the vendored x/tools are correct",
	"the confirmed relation was established on the unchanged tree by reading and testing it; code that computes the same effects from the same elements under the same conditions is taken to behave the same",
	"generated *.pb.go code and third-party modules behave as documented",
}

// checkMain decides one property and returns the exit status.
func checkMain(root, id string) int {
	t := time.Now()
	pr := propByID(id)
	if pr == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	replay := filepath.Join(verifDir(), "evidence", id+".replay.txt")
	fail := func(fs []Finding, c *Check, known int) int {
		_ = os.MkdirAll(filepath.Dir(replay), 0o755)
		var b strings.Builder
		for i, f := range fs {
			fmt.Fprintf(&b, "%s [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
			if i < 20 {
				m := fmt.Sprintf("%s [%s] %s: %s", f.Pos, f.Rule, f.Construct, f.Msg)
				if len(m) > 600 {
					m = m[:600] + "..."
				}
				fmt.Println(m)
			}
		}
		_ = os.WriteFile(replay, []byte(b.String()), 0o644)
		_ = evidence(c, id, len(fs), known, time.Since(t).Seconds(), commonAssumptions)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	p, err := loadProg(root, readOverlay())
	if err != nil {
		return fail([]Finding{{id, "load", "repository", "-", err.Error()}}, nil, 0)
	}
	base, err := loadBaseline()
	if err != nil {
		fmt.Println("cannot load the confirmed relation:", err)
		return 2
	}
	c := runProperty(p, base, newRelCmp(base, p), pr)
	kf, err := loadKnown(verifDir())
	if err != nil {
		fmt.Println("cannot load known findings:", err)
		return 2
	}
	viol, known := splitKnown(c.out, kf)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(viol) > 0 {
		return fail(viol, c, len(known))
	}
	if err := evidence(c, id, 0, len(known), time.Since(t).Seconds(), commonAssumptions); err != nil {
		fmt.Println(err)
		return 2
	}
	os.Remove(replay)
	fmt.Printf("OK property=%s obligations=%d\n", id, sum(c.count))
	return 0
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func splitKnown(fs []Finding, kf knownFile) (viol []Finding, known []string) {
	for _, f := range fs {
		hit := false
		for _, k := range kf.Known {
			if k.Property == f.Property && k.Rule == f.Rule && k.Construct == f.Construct {
				hit = true
				known = append(known, k.What+" ["+f.Construct+"]")
				break
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	return
}
