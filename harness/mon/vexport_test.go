//go:build vexport

package mon

import (
	"time"

	"github.com/crimist/trakx/tracker/udp"
)

func init() {
	newVConn = func(d time.Duration) vconn { return udp.VNewConnDB(d) }
	trackerVConn = func(u *udp.UDPTracker) vconn { return u.VConns() }
}
