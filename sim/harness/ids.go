package main

import (
	_ "unsafe"

	"gosim/core"

	_ "github.com/funny/link"
)

// lastSession is the number of the connection accepted last, in the connection
// library.
//
//go:linkname lastSession github.com/funny/link.globalSessionId
var lastSession uint64

// sessionBase is that number at the beginning of the run.
var sessionBase uint64

// drawSessions lets the process have served any number of connections before.
func drawSessions() {
	n := []uint64{0, 0, 0, 0, 0, 0, 250, 65530, 1<<31 - 3, 1<<32 - 3}[core.W(10)]
	if n > 0 {
		lastSession = n + uint64(core.W(6))
		core.Count("session numbers beyond 8, 16 or 32 bits")
	}
	sessionBase = lastSession
}
