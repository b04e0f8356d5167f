package main

import (
	"fmt"
	"os"
	"strconv"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Println("usage: vh check|worker|replay|list")
		os.Exit(2)
	}
	atoi := func(s string) int { n, _ := strconv.Atoi(s); return n }
	switch a[0] {
	case "check":
		os.Exit(supervise(a[1], a[2], a[3]))
	case "worker":
		seed, _ := strconv.ParseInt(a[3], 10, 64)
		workerMain(a[1], a[2], seed, atoi(a[4]), atoi(a[5]), a[6], a[7], atoi(a[8]))
	case "replay":
		seed, _ := strconv.ParseInt(a[3], 10, 64)
		replayMain(a[1], a[2], seed, a[4], atoi(a[5]))
	case "repl":
		replMain()
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	}
}
