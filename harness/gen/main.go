// Command gen writes the overlays some checks are built with:
//
//	gen rand OUTDIR          scripted random source (M04)
//	gen sched REPO OUTDIR    scheduling points in the library (Y03)
package main

import (
	"fmt"
	"os"
)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gen:", err)
		os.Exit(3)
	}
}

func main() {
	switch os.Args[1] {
	case "rand":
		genRand(os.Args[2])
	case "sched":
		genSched(os.Args[2], os.Args[3])
	default:
		check(os.ErrInvalid)
	}
}
