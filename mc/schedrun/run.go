// Package schedrun drives the schedule exploration of mc/xsched, which runs in
// processes of its own, for the checks of C26, C27 and C28.
package schedrun

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verifmc/core"
)

type task struct {
	Index, Bound, Max int
	Prefix            []int
}

type out struct {
	Name                              string
	Bound                             int
	Delay                             bool
	Schedules, Steps, Points, Longest int
	Complete                          bool
	Msg                               string
	Trace, Next                       []int
	Log                               []string
	Races                             int
}

type hello struct {
	Race  bool
	Names []string
}

// child is one xsched process.
type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
	h   hello
	n   int // schedules so far
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<15 {
		t.b = t.b[len(t.b)-1<<14:]
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func exe() string { return filepath.Join(os.Getenv("MC_TMP"), "xsched") }

func start(id string) (*child, error) {
	cmd := exec.Command(exe(), id)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0", "GOMAXPROCS=1", "GOMEMLIMIT=2000MiB")
	k := &child{cmd: cmd, err: &tail{}}
	cmd.Stderr = k.err
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	k.in, k.enc, k.dec = in, json.NewEncoder(in), json.NewDecoder(o)
	if err := k.read(&k.h); err != nil {
		k.stop()
		return nil, err
	}
	return k, nil
}

func (k *child) stop() {
	k.in.Close()
	k.cmd.Process.Kill()
	k.cmd.Wait()
}

// read waits for an answer, for at most two minutes.
func (k *child) read(v any) error {
	t := time.AfterFunc(2*time.Minute, func() { k.cmd.Process.Kill() })
	defer t.Stop()
	return k.dec.Decode(v)
}

func (k *child) do(t task) (o out, err error) {
	if err = k.enc.Encode(t); err != nil {
		return
	}
	err = k.read(&o)
	k.n += o.Schedules
	return
}

// Part explores all scenarios of a property.
func Part(c *core.C, id string, bound int) {
	c.Part("schedules", fmt.Sprintf("every scenario under every schedule with at most %d preemptions (fewer for larger scenarios; delays instead of preemptions for the largest), at every statement and synchronisation of the instrumented library", bound), func() {
		first, err := start(id)
		if err != nil {
			c.Assume("the instrumented library could not be built, so schedules were not controlled: " + short(err.Error()))
			c.Extra("instrumented", false)
			c.Truncate()
			return
		}
		names := first.h.Names
		first.stop()
		c.Extra("instrumented", true)
		c.Extra("race_detector", first.h.Race)
		c.Extra("scenarios", len(names))
		c.Extra("preemption_bound", bound)
		var mu sync.Mutex
		idle := []*child{}
		longest, bounds, trouble := 0, map[string]int{}, []string{}
		bad := func(s string) {
			mu.Lock()
			trouble = append(trouble, s)
			mu.Unlock()
			c.Truncate()
		}
		c.Par(len(names), func(w *core.W, i int) {
			i = len(names) - 1 - i // the larger ones first
			mu.Lock()
			var k *child
			if n := len(idle); n > 0 {
				k, idle = idle[n-1], idle[:n-1]
			}
			mu.Unlock()
			defer func() {
				if k != nil {
					mu.Lock()
					idle = append(idle, k)
					mu.Unlock()
				}
			}()
			var prefix []int
			for {
				if c.TimeUp() {
					return
				}
				w.Begin(func() string { return names[i] })
				if k != nil && k.n > 150000 { // the race detector's memory grows
					k.stop()
					k = nil
				}
				if k == nil {
					var err error
					if k, err = start(id); err != nil {
						bad(names[i] + ": " + err.Error())
						k = nil
						return
					}
				}
				o, err := k.do(task{i, bound, 5000, prefix})
				if err != nil {
					if s := k.err.String(); strings.Contains(s, "fatal error: stack overflow") {
						c.Fail(names[i]+": stack overflow", "%s: the program died of a stack overflow\n%s", names[i], short(s))
					} else {
						bad(names[i] + ": " + err.Error() + " " + short(s))
					}
					k.stop()
					k = nil
					return
				}
				w.S += int64(o.Points + o.Schedules)
				w.T += int64(o.Steps)
				w.V += int64(o.Schedules)
				mu.Lock()
				if o.Longest > longest {
					longest = o.Longest
				}
				kind := "preemptions"
				if o.Delay {
					kind = "delays"
				}
				if o.Complete {
					bounds[fmt.Sprintf("%d %s", o.Bound, kind)]++
				}
				mu.Unlock()
				if o.Msg != "" {
					confirm(c, id, i, bound, o, bad)
					return
				}
				if o.Complete {
					if c.WantSample() && o.Schedules > 10 {
						c.Sample("%s: %d schedules, up to %d choices", o.Name, o.Schedules, o.Longest)
					}
					return
				}
				prefix = o.Next
			}
		})
		for _, k := range idle {
			k.stop()
		}
		c.Extra("most_choices_in_a_schedule", longest)
		c.Extra("scenarios_completed_by_bound", bounds)
		if len(trouble) > 0 {
			c.Extra("trouble", trouble)
			fmt.Fprintf(os.Stderr, "trouble: %s\n", trouble[0])
		}
	})
}

func short(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// confirm replays a violating schedule in a fresh process.
func confirm(c *core.C, id string, i, bound int, o out, bad func(string)) {
	if strings.HasPrefix(o.Msg, "harness:") {
		bad(o.Name + ": " + o.Msg)
		return
	}
	k, err := start(id)
	if err != nil {
		bad(o.Name + ": " + err.Error())
		return
	}
	defer k.stop()
	again, err := k.do(task{i, bound, 1, o.Trace})
	if err != nil || again.Msg == "" {
		bad(fmt.Sprintf("%s: %s, which did not happen again when the schedule was replayed", o.Name, o.Msg))
		return
	}
	race := ""
	if o.Races > 0 {
		k.in.Close()
		race = "\n" + short(k.err.String())
	}
	line := o.Msg
	if j := strings.IndexByte(line, '\n'); j > 0 {
		line = line[:j]
	}
	c.Fail(o.Name+": "+line, "scenario %q, schedule %v (confirmed by replay):\n%s%s\n%s", o.Name, o.Trace, o.Msg, race, strings.Join(o.Log, "\n"))
}
