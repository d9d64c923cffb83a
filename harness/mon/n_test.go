package mon

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	gohttp "net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
)

func init() { register("N01", monN01) }

// usage is what a tracker holds.
type usage struct {
	FDs, Goroutines int
	Heap, Objects   int64
}

// trackerGoroutines counts the goroutines that run code of the tracker.
func trackerGoroutines() (n int) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/crimist/trakx/") && !strings.Contains(g, "vmon/mon.") {
			n++
		}
	}
	return
}

func openFDs(pid string) (int, error) {
	es, err := os.ReadDir("/proc/" + pid + "/fd")
	return len(es), err
}

func heapNow() (heap, objects int64) {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		if i == 0 || int64(m.HeapAlloc) < heap {
			heap, objects = int64(m.HeapAlloc), int64(m.HeapObjects)
		}
	}
	return
}

// n01udp is a fixed amount of traffic from new addresses about new torrents.
func n01udp(c *Ctx, r *rand.Rand, port, clients int) {
	for i := 0; i < clients && !c.Violated(); i++ {
		ip := fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(254))
		if r.Intn(4) == 0 {
			ip = "::1"
		}
		u, err := newUClient(ip, port)
		must(c, err, "client")
		if err := u.connect(); err != nil {
			must(c, err, "connect")
		}
		for k := 0; k < 24; k++ {
			var a annc
			r.Read(a.Hash[:])
			r.Read(a.ID[:])
			a.Left, a.Port, a.NumWant, a.Event = int64(r.Intn(2)), uint16(1+r.Intn(65535)), int32(r.Intn(90)-1), uint32(r.Intn(3))
			for n := 1 + r.Intn(2); n > 0; n-- {
				_, err = u.rpc(pkAnnounce(u.cid, u.next(), a))
				must(c, err, "announce")
				a.ID[0]++
				a.Left ^= 1
			}
			switch r.Intn(6) {
			case 0:
				a.Event = 3
				_, err = u.rpc(pkAnnounce(u.cid, u.next(), a))
			case 1:
				_, err = u.rpc(pkScrape(u.cid, u.next(), []Hash{a.Hash, {1}, {2}}))
			case 2:
				_, err = u.rpc(pkAnnounce(u.cid+1, u.next(), a)) // refused
			case 3:
				_, err = u.rpc(pkAnnounce(u.cid, u.next(), a)[:20+r.Intn(78)])
			case 4:
				u.conn.Write(pkConnect(1)[:r.Intn(16)])
			}
			must(c, err, "request")
			c.Count("udp_requests", 2)
		}
		u.close()
	}
}

func n01http(c *Ctx, r *rand.Rand, port, requests int) {
	for i := 0; i < requests && !c.Violated(); i++ {
		hc := hclient{fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(254)), port}
		var a hannc
		r.Read(a.Hash[:])
		r.Read(a.ID[:])
		a.Port, a.Left, a.NumWant = fmt.Sprint(1+r.Intn(65535)), fmt.Sprint(r.Intn(2)), fmt.Sprint(r.Intn(90))
		a.Compact, a.NoID = r.Intn(2) == 0, r.Intn(2) == 0
		req := "GET /announce?" + a.query() + " HTTP/1.1\r\n\r\n"
		wait := true
		switch r.Intn(14) {
		case 0:
			a.Event = "stopped"
			req = "GET /announce?" + a.query() + " HTTP/1.1\r\n\r\n"
		case 1:
			req = "GET /scrape?info_hash=" + esc(a.Hash[:]) + " HTTP/1.1\r\n\r\n"
		case 2:
			req = "GET /announce?info_hash=short HTTP/1.1\r\n\r\n"
		case 3:
			req = "GET /" + []string{"", "stats", "index.html", "nothing", "heartbeat", "scrape"}[r.Intn(6)] + " HTTP/1.1\r\n\r\n"
		case 4:
			b := make([]byte, 1+r.Intn(3000))
			r.Read(b)
			req = string(b)
		case 5:
			req = "POST / HTTP/1.1\r\n\r\n"
		case 6:
			req = req[:r.Intn(len(req)+1)]
			wait = false
		case 7:
			req = "R0VUIC9" + req
		}
		conn, err := hc.dial()
		must(c, err, "dial")
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		conn.Write([]byte(req))
		switch {
		case !wait && r.Intn(2) == 0:
			conn.(*net.TCPConn).SetLinger(0)
		case !wait:
			conn.(*net.TCPConn).CloseWrite()
			err = untilClosed(conn)
		case r.Intn(8) == 0: // gone before the answer
		default:
			err = untilClosed(conn)
		}
		n01held(c, err, req)
		conn.Close()
		c.Count("http_requests", 1)
	}
}

// untilClosed reads an answer and waits for the end of the connection; the
// tracker has nothing left to do after it answered.
func untilClosed(conn net.Conn) error {
	var b [1]byte
	if _, err := conn.Read(b[:]); err != nil {
		return err
	}
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	_, err := io.Copy(io.Discard, conn)
	return err
}

// n01held: connections end, whatever was asked.
func n01held(c *Ctx, err error, req string) {
	if err != nil && errors.Is(err, os.ErrDeadlineExceeded) && !c.Violated() {
		c.Violate(map[string]any{"request": lastBytes(req, 300)}, "a connection is still open 60 s after the request or 20 s after its answer")
	}
}

// n01silent are clients that never send anything.
func n01silent(c *Ctx, port, n int) {
	for i := 0; i < n && !c.Violated(); i++ {
		conn, err := hclient{"", port}.dial()
		must(c, err, "dial")
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, err = io.Copy(io.Discard, conn) // until disconnected
		n01held(c, err, "")
		conn.Close()
		c.Count("silent_clients", 1)
	}
}

func monN01(c *Ctx) {
	config.Config.HTTP.Threads = 6
	config.Config.HTTP.Timeout.Read = 200 * time.Millisecond
	config.Config.HTTP.Timeout.Write = 200 * time.Millisecond
	config.Config.UDP.Threads = 3
	config.Config.UDP.ConnDB.Trim = 40 * time.Millisecond
	config.Config.UDP.ConnDB.Expiry = time.Second
	config.Config.DB.Trim = 40 * time.Millisecond
	config.Config.DB.Expiry = time.Second
	config.Config.DB.Backup.Frequency = 100 * time.Millisecond
	db, err := openFile(scratch(c, "n01") + "/backup.db")
	must(c, err, "database")
	s := startServers(c, db, true, true)
	r := c.Rand("N01")
	debug.SetMemoryLimit(12 << 30)
	var us []usage
	round := func() {
		// the collector would close what the tracker forgot to close
		gc := debug.SetGCPercent(-1)
		var over atomic.Bool
		var wg, mixed sync.WaitGroup
		hashes := similarHashes(r, 4)
		go0 := func(wg *sync.WaitGroup, f func(r *rand.Rand)) {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() { defer wg.Done(); f(rr) }()
		}
		l := &s07load{c, func(f string, a ...any) {
			if !c.Violated() {
				c.Violate(nil, f+"; what it holds is held for ever", a...)
			}
		}, &over, s.udpPort, s.httpPort, hashes, false}
		go0(&mixed, func(r *rand.Rand) { l.udp(0, r) })
		go0(&mixed, func(r *rand.Rand) { l.http(0, r) })
		for i := 0; i < 3; i++ {
			go0(&wg, func(r *rand.Rand) { n01udp(c, r, s.udpPort, 60) })
			go0(&wg, func(r *rand.Rand) { n01http(c, r, s.httpPort, 350) })
		}
		go0(&wg, func(r *rand.Rand) { n01silent(c, s.httpPort, 6) })
		wg.Wait()
		over.Store(true)
		mixed.Wait()
		// everything expires within a second or so
		end := time.Now().Add(60 * time.Second)
		left := func() string {
			se, le := stats.Seeds.Load(), stats.Leeches.Load()
			if n, m, k := db.Hashes(), s.udp.Connections(), stats.IPStats.Total(); n != 0 || m != 0 || k != 0 || se != 0 || le != 0 {
				return fmt.Sprintf("%d torrents, %d seeders, %d leechers, %d addresses, %d connection ids", n, se, le, k, m)
			}
			return ""
		}
		for left() != "" && time.Now().Before(end) && !c.Violated() {
			time.Sleep(20 * time.Millisecond)
		}
		if d := left(); d != "" && !c.Violated() {
			c.Violate(nil, "a minute after the last request, with an expiry of a second, the tracker still holds %s", d)
		}
		var u usage
		lim := usage{FDs: 1 << 30, Goroutines: 1 << 30}
		if len(us) > 0 {
			lim = usage{FDs: us[0].FDs + 4, Goroutines: us[0].Goroutines + 4}
		}
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(50 * time.Millisecond) {
			u.FDs, err = openFDs("self")
			must(c, err, "file descriptors")
			u.Goroutines = trackerGoroutines()
			if u.FDs <= lim.FDs && u.Goroutines <= lim.Goroutines || time.Now().After(end) {
				break
			}
		}
		debug.SetGCPercent(gc)
		u.Heap, u.Objects = heapNow()
		us = append(us, u)
		c.Count("rounds", 1)
		c.Eval(fmt.Sprint("round", len(us)))
	}
	// growing tells whether the heap grew noticeably in each of the last n rounds
	growing := func(n int) bool {
		if len(us) <= n {
			return false
		}
		for i := len(us) - n; i < len(us); i++ {
			if us[i].Heap < us[i-1].Heap+60_000 {
				return false
			}
		}
		return true
	}
	rounds := 6 + c.Scale
	for i := 0; i < rounds && !c.TooMany(); i++ {
		round()
		u := us[len(us)-1]
		if u.FDs > us[0].FDs+4 {
			c.Violate(us, "%d open file descriptors after %d rounds of the same traffic, %d after the first", u.FDs, len(us), us[0].FDs)
			break
		}
		if u.Goroutines > us[0].Goroutines+4 {
			c.Violate(us, "%d goroutines after %d rounds of the same traffic, %d after the first", u.Goroutines, len(us), us[0].Goroutines)
			break
		}
		c.Max("max_fds", u.FDs)
		c.Max("max_goroutines", u.Goroutines)
		c.Max("max_heap_kb", int(u.Heap>>10))
	}
	for i := 0; i < 8 && growing(4+i) && !c.Violated(); i++ {
		round() // look again
		if i == 7 && growing(12) {
			c.Violate(us, "memory grows with every round of the same traffic, from %d to %d bytes in %d rounds", us[len(us)-13].Heap, us[len(us)-1].Heap, 12)
		}
	}
	c.Sample(us)
	if !c.Violated() {
		n01process(c)
	}
}

// n01process looks at real trackers from outside, also in information mode.
func n01process(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	for k, mode := range []string{"enabled", "info"} {
		r := c.Rand("N01/" + mode)
		dir := scratch(c, "n01"+mode)
		up, hp := freePort(c), freePort(c)
		cfg := defaultPcfg(up, hp).with("http.mode", mode, "expvarinterval", "50ms", "http.timeout.read", "300ms", "http.timeout.write", "300ms",
			"db.backup.type", "file", "db.backup.path", dir+"/backup.db", "db.backup.frequency", "100ms", "db.trim", "50ms", "db.expiry", "1s", "udp.conndb.trim", "50ms", "udp.conndb.expiry", "1s",
			"loglevel", "error")
		p := launch(c, bin, dir, cfg, []string{"execute"}, "GOGC=off", "GOMEMLIMIT=4GiB")
		if !p.ready(true, true) {
			c.Violate(nil, "the tracker does not start: %s", lastBytes(p.log(), 2000))
			return
		}
		var us []usage
		for i := 0; i < 4+c.Scale/4 && !c.Violated(); i++ {
			var wg sync.WaitGroup
			for n := 0; n < 4; n++ {
				rr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					if n%2 == 0 {
						n01udp(c, rr, up, 30)
					} else {
						n01http(c, rr, hp, 300)
					}
				}()
			}
			if k == 0 {
				n01silent(c, hp, 4)
			}
			wg.Wait()
			var u usage
			for end := time.Now().Add(20 * time.Second); ; time.Sleep(100 * time.Millisecond) {
				n, err := openFDs(fmt.Sprint(p.cmd.Process.Pid))
				must(c, err, "file descriptors of the tracker")
				f, err := statsOverHTTP(hp)
				must(c, err, "statistics")
				g, ok := f["internal.goroutines"]
				if !ok {
					c.Inconclusive("no goroutine count in the statistics")
				}
				u = usage{FDs: n, Goroutines: int(g)}
				if len(us) == 0 || u.FDs <= us[0].FDs+4 && u.Goroutines <= us[0].Goroutines+4 || time.Now().After(end) {
					break
				}
			}
			us = append(us, u)
			if u.FDs > us[0].FDs+4 || u.Goroutines > us[0].Goroutines+4 {
				c.Violate(us, "mode %s: %d file descriptors and %d goroutines after %d rounds of the same traffic, %d and %d after the first", mode, u.FDs, u.Goroutines, len(us), us[0].FDs, us[0].Goroutines)
			}
			c.Count("process_rounds", 1)
			c.Eval(fmt.Sprint(mode, i))
		}
		if bytes.Contains([]byte(p.log()), []byte("too many open files")) {
			c.Violate(us, "mode %s: out of file descriptors", mode)
		}
		p.signal(syscall.SIGTERM)
		if !p.wait(30 * time.Second) {
			p.kill()
		}
	}
}

// statsOverHTTP asks as browsers do; the information server sends chunks.
func statsOverHTTP(port int) (map[string]int64, error) {
	cl := &gohttp.Client{Timeout: 60 * time.Second, Transport: &gohttp.Transport{DisableKeepAlives: true}}
	resp, err := cl.Get(fmt.Sprintf("http://127.0.0.1:%d/stats", port))
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	return parseStats(append([]byte("HTTP/1.1 200\r\n\r\n"), b...))
}
