// xsched runs the scenarios of C26, C27, C28, C31 and C33 on the instrumented library under
// every schedule within a preemption bound. It is started by those checks:
//
//	xsched PROPERTY
//
// It writes the names of the scenarios, then reads tasks and answers them.
//
// Shared variables of a scenario are cells of mcrt, which the race detector does
// not see, except the value protected by a Mutex.
package main

import (
	"encoding/json"
	"os"
	"runtime"
	"syscall"

	"verifmc/mcrt"
)

type scen struct {
	name  string
	minus int // lower the preemption bound by this much (larger scenarios); 9 and more: bound the delays instead
	f     func()
}

var scens []scen

func add(name string, minus int, f func()) { scens = append(scens, scen{name, minus, f}) }

// group starts goroutines and waits until they have ended.
type group struct {
	n    int
	done mcrt.Cell
}

func (g *group) Go(f func()) {
	g.n++
	mcrt.Go(func() {
		f()
		g.done.Add(1)
	})
}

func (g *group) Wait() {
	n := g.n
	mcrt.Until("waiting for the scenario's goroutines", func() bool { return g.done.Get() == n })
}

// Task asks for (the rest of) the exploration of a scenario.
type Task struct {
	Index, Bound, Max int
	Prefix            []int
}

// Out is the answer.
type Out struct {
	Name  string
	Bound int
	Delay bool
	mcrt.Stats
}

func main() {
	runtime.GOMAXPROCS(1)
	switch os.Args[1] {
	case "C26":
		futures()
	case "C27":
		threads()
	case "C28":
		mutexes()
	case "C31":
		stdins()
	case "C33":
		sharing()
	}
	enc := json.NewEncoder(os.Stdout)
	var names []string
	for _, s := range scens {
		names = append(names, s.name)
	}
	enc.Encode(map[string]any{"Race": mcrt.RaceBuild, "Names": names})
	// C31's scenarios replace file descriptor 0
	fd, err := syscall.Dup(0)
	if err != nil {
		panic(err)
	}
	syscall.CloseOnExec(fd)
	dec := json.NewDecoder(os.NewFile(uintptr(fd), "tasks"))
	for {
		var t Task
		if dec.Decode(&t) != nil {
			return
		}
		s := scens[t.Index]
		b, delay := t.Bound-s.minus, s.minus >= 9
		if delay {
			b += 9
		}
		if b < 0 {
			b = 0
		}
		st := mcrt.Explore(s.f, b, delay, t.Prefix, t.Max)
		enc.Encode(Out{s.name, b, delay, st})
	}
}
