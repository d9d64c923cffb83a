package mon

import "syscall"

var errReset error = syscall.ECONNRESET
