// Package bubble runs code under a virtual clock, in a group of goroutines
// whose quiescence and deadlock are detected by the Go runtime (testing/synctest).
package bubble

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"

	"verifmc/core"
)

var theT *testing.T

// Main is core.Main for checks that use Run.
func Main(id string, body func(c *core.C)) {
	if os.Getenv("MC_WORKER") == "" {
		core.Main(id, body)
		return
	}
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "check", F: func(t *testing.T) {
		theT = t
		core.Main(id, body)
	}}}, nil, nil)
}

// Wait returns when every other goroutine of the bubble is blocked.
func Wait() { synctest.Wait() }

// Run executes f in a bubble. It returns a message when f panicked or when
// goroutines of the bubble stay blocked for ever ("" otherwise).
func Run(f func()) (msg string) {
	done := make(chan struct{})
	go func() { // synctest.Test may end its goroutine
		defer close(done)
		defer func() {
			if r := recover(); r != nil && msg == "" {
				msg = fmt.Sprint(r)
			}
		}()
		synctest.Test(theT, func(*testing.T) {
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					if i := strings.Index(st, "panic("); i > 0 {
						st = st[i:]
					}
					msg = fmt.Sprintf("panic: %v\n%s", r, st)
				}
			}()
			f()
		})
	}()
	<-done
	return msg
}
