// Command replay runs one counterexample of a harness against the real code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"

	"verifharness/props"
	"verifharness/vh"
)

func main() {
	c, err := vh.Load(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	f := props.Registry[c.Harness]
	if f == nil {
		fmt.Println("unknown harness", c.Harness)
		os.Exit(2)
	}
	n, jit, limit := 0, 0, 20*time.Second
	if len(os.Args) > 3 { // jitter N: runs with random delays at synchronisation operations
		jit, _ = strconv.Atoi(os.Args[3])
		limit = 50 * time.Second
	} else if len(os.Args) > 2 {
		n, _ = strconv.Atoi(os.Args[2])
	}
	out := make(chan vh.Result, 1)
	go func() {
		r := vh.Run(c, f, nil)
		t0 := time.Now()
		for i := 1; i <= jit && r.Status != "fail" && r.Status != "panic" && time.Since(t0) < 35*time.Second; i++ {
			vh.Jitter(uint64(i))
			r = vh.Run(c, f, nil)
		}
		vh.Jitter(0)
		if n > 0 && r.Status != "fail" && r.Status != "panic" {
			rng := vh.NewRNG(1)
			for i := 0; i < n; i++ {
				r = vh.Run(c, f, rng)
				if r.Status == "fail" || r.Status == "panic" {
					break
				}
			}
		}
		out <- r
	}()
	var r vh.Result
	select {
	case r = <-out:
	case <-time.After(limit):
		r = vh.Result{Status: "hang"}
	}
	b, _ := json.Marshal(r)
	fmt.Println("VH-RESULT " + string(b))
}
