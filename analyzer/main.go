package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func readOverlay() map[string][]byte {
	f := os.Getenv("AN_OVERLAY")
	if f == "" {
		return nil
	}
	raw, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	m := map[string]string{}
	if err := json.Unmarshal(raw, &m); err != nil {
		panic(err)
	}
	out := map[string][]byte{}
	for k, v := range m {
		b, err := os.ReadFile(v)
		if err != nil {
			panic(err)
		}
		out[k] = b
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: analyzer check ID | all | freeze | rel | show NAME")
		os.Exit(2)
	}
	t := time.Now()
	root := "/repo"
	if r := os.Getenv("AN_REPO"); r != "" {
		root = r
	}
	if os.Args[1] == "check" {
		os.Exit(checkMain(root, os.Args[2]))
	}
	p, err := loadProg(root, readOverlay())
	if err != nil {
		fmt.Println("LOAD", err)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "freeze":
		if err := freeze(p, "tables/relation.json.gz"); err != nil {
			panic(err)
		}
		if err := freezeTemplates(p, "tables/templates.json.gz"); err != nil {
			panic(err)
		}
	case "floors":
		// record how many instances each rule decides on the confirmed tree
		base, err := loadBaseline()
		if err != nil {
			panic(err)
		}
		fl := map[string]map[string]int{}
		rel := newRelCmp(base, p)
		for i := range properties {
			c := runProperty(p, base, rel, &properties[i])
			fl[properties[i].ID] = c.count
		}
		raw, _ := json.MarshalIndent(fl, "", " ")
		if err := os.WriteFile("tables/floors.json", raw, 0o644); err != nil {
			panic(err)
		}
	case "show":
		bl, _ := loadBaseline()
		e := newEval(p, knownFn(p, bl))
		for _, fn := range p.Funcs {
			if strings.Contains(fname(fn), os.Args[2]) {
				fmt.Println("##", fname(fn))
				for _, ef := range e.effects(fn) {
					fmt.Println(ef.Pos, ef.Key, ef.Src, "\n     D", ef.Direct, "\n     N", ef.Near, "\n     M", ef.Must, "\n     S", ef.Soft, "\n     A", ef.All)
				}
			}
		}
	case "rel":
		b, err := loadBaseline()
		if err != nil {
			panic(err)
		}
		rc := newRelCmp(b, p)
		var ns []string
		for n := range b.Funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		cnt := 0
		for _, n := range ns {
			for _, d := range rc.compare(n) {
				fmt.Println(d)
				cnt++
			}
		}
		fmt.Println("DIFFS", cnt)
	case "all":
		// development aid: every property on one load
		base, err := loadBaseline()
		if err != nil {
			panic(err)
		}
		kf, _ := loadKnown(verifDir())
		rel := newRelCmp(base, p)
		only := map[string]bool{}
		for _, a := range os.Args[2:] {
			only[a] = true
		}
		cnt := 0
		for i := range properties {
			if len(only) > 0 && !only[properties[i].ID] {
				continue
			}
			c := runProperty(p, base, rel, &properties[i])
			viol, known := splitKnown(c.out, kf)
			fmt.Printf("%s obligations=%v known=%d violations=%d\n", properties[i].ID, c.count, len(known), len(viol))
			for _, f := range viol {
				fmt.Printf("  V %s %s [%s] %s: %s\n", f.Property, f.Pos, f.Rule, f.Construct, f.Msg)
				cnt++
			}
		}
		fmt.Println("DIFFS", cnt)
	}
	fmt.Fprintln(os.Stderr, time.Since(t))
}
