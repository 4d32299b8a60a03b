//go:build goexperiment.synctest

package verifkit

import (
	"fmt"
	"strings"
	"testing/synctest"
)

// Bubble runs f in a synctest bubble: virtual time that advances only when all
// goroutines of the bubble wait. It waits for all of them to end. Failures of
// rapid inside are carried out of the bubble.
func Bubble(f func()) {
	var c *Captured
	synctest.Run(func() {
		c = Capture(f)
	})
	if c != nil {
		if strings.Contains(fmt.Sprintf("%T", c.Value), "rapid.") {
			panic(c.Value)
		}
		panic(fmt.Sprintf("%v\n%s", c.Value, c.Stack))
	}
}

// Wait waits until all other goroutines of the bubble are blocked.
func Wait() { synctest.Wait() }
