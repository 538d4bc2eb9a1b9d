package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check|verify|list")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	name := fs.String("c", "", "contract name substring")
	to := fs.Duration("t", 20*time.Second, "solver timeout per obligation")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "verify":
		ld, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, c := range ld.contracts {
			if !strings.Contains(c.name, *name) {
				continue
			}
			if *prop != "" && !hasWord(strings.Join(c.props, " "), *prop) {
				continue
			}
			v := ld.verify(c, *to)
			st := "ok"
			if v.err != "" {
				st = "ERROR " + v.err
			} else if len(v.failed) > 0 {
				st = "FAILED"
			}
			fmt.Printf("%-50s %-8s %d obligations, %d failed, %.1fs\n", c.name, st, len(v.obls), len(v.failed), v.dur.Seconds())
			for _, o := range v.failed {
				fmt.Printf("    %s: %s (%s) at %s\n", o.kind, o.name, o.res.status, o.pos)
			}
			if os.Getenv("GOVC_NOTES") != "" {
				for _, n := range v.notes {
					fmt.Println("    note:", n)
				}
			}
		}
	case "list":
		ld, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, c := range ld.contracts {
			fmt.Println(c.name, c.props, c.subjStr, c.flags)
		}
	case "native":
		ld, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, c := range ld.contracts {
			if !strings.Contains(c.name, *name) || *prop != "" && !hasWord(strings.Join(c.props, " "), *prop) {
				continue
			}
			r := ld.native(c, 3000000, to.Seconds())
			fmt.Printf("%-50s tried %d checked %d found %v\n", c.name, r.Tried, r.Checked, r.Found)
			if r.Found || !r.ran {
				fmt.Println(r.Failures, r.Inputs, r.Panic, r.log)
			}
		}
	case "check":
		os.Exit(check(*prop, *tier))
	}
}
