// vrun runs one check.
package main

import (
	"flag"
	"fmt"
	"os"

	_ "verif/checks"
	"verif/core"
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "directory of the framework")
	worker := flag.Bool("worker", false, "run as worker")
	dir := flag.String("dir", "", "scratch directory of the worker")
	spool := flag.String("spool", "", "directory for files of violations")
	only := flag.Int("only", -1, "run only this case")
	first := flag.Int("first", 0, "first case")
	num := flag.Int("n", 0, "number of cases")
	list := flag.Bool("list", false, "list the checks")
	child := flag.String("child", "", "execute a function of a check in this process")
	flag.Parse()
	if *child != "" {
		core.Child[*child](flag.Args())
		return
	}
	if *list {
		fmt.Println(core.IDs())
		return
	}
	ch := core.Get(*prop)
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	o := core.Options{Verif: *verif, Tier: *tier, Seed: *seed, Only: *only, First: *first, N: *num}
	if *worker {
		core.Worker(ch, o, *dir, *spool)
		return
	}
	os.Exit(core.Supervise(ch, o))
}
