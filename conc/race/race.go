package main

// Happens-before pass: built with -race against the library as it is. Two calls run one after
// the other in different goroutines with no synchronisation between them that the detector could
// see, so every pair of conflicting accesses is reported whatever the timing.

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
)

// flags are read and written without instrumentation
type flags struct{ go0, go1, done0, done1 bool }

//go:norace
//go:noinline
func waitFor(p *bool) {
	for !*p {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func set(p *bool) { *p = true }

func main() {
	if os.Args[1] == "cold" {
		a, _ := strconv.Atoi(os.Args[2])
		b, _ := strconv.Atoi(os.Args[3])
		both(buildOps(), a, b)
		return
	}
	k, _ := strconv.Atoi(os.Args[1])
	n, _ := strconv.Atoi(os.Args[2])
	ops := buildOps()
	m := len(ops)
	pairs := 0
	for idx := k; idx < m*m; idx += n {
		a, b := idx%m, idx/m
		if !together(ops[a], ops[b]) {
			continue
		}
		both(ops, a, b)
		pairs++
	}
	fmt.Println("pairs", pairs)
}

// both runs two operations one after the other, in goroutines that do not know of each other.
func both(ops []*Op, a, b int) {
	p := NewPool()
	ba, bb := ops[a].Bind(p), ops[b].Bind(p)
	fl := &flags{}
	end := make(chan int, 2)
	name := ops[a].Name + " and " + ops[b].Name
	fmt.Println("op", name)
	go func() {
		waitFor(&fl.go0)
		ba.Call()
		set(&fl.done0)
		end <- 1
	}()
	go func() {
		waitFor(&fl.go1)
		bb.Call()
		set(&fl.done1)
		end <- 1
	}()
	set(&fl.go0)
	waitFor(&fl.done0)
	set(&fl.go1)
	waitFor(&fl.done1)
	<-end
	<-end
}
