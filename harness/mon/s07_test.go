package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("S07", monS07)
	register("S07early", monS07early)
}

func s07cfg(r *rand.Rand, up, hp int, path string) pcfg {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	return defaultPcfg(up, hp).with(
		"loglevel", pick("info", "debug", "error"), "expvarinterval", pick("7ms", "20ms", "60ms"),
		"announce.fuzz", pick("0s", "90s"),
		"http.timeout.read", "1s", "http.timeout.write", "2s", "http.threads", pick("3", "12", "40"), "udp.threads", pick("1", "3", "12"),
		"udp.conndb.validate", pick("true", "true", "false"), "udp.conndb.trim", pick("70ms", "300ms"), "udp.conndb.expiry", pick("1s", "2s"), "udp.conndb.size", pick("0", "1000"),
		"numwant.default", "20", "numwant.limit", pick("20", "30", "600"),
		"db.backup.type", pick("file", "file", "none"), "db.backup.path", path, "db.backup.frequency", pick("90ms", "300ms", "0s"),
		"db.trim", pick("60ms", "250ms"), "db.expiry", pick("1s", "2s", "40m"))
}

// s07load is one client making every kind of request.
type s07load struct {
	c      *Ctx
	bad    func(f string, a ...any)
	over   *atomic.Bool
	up, hp int
	hashes []Hash
	heroku bool
}

func (l *s07load) udp(k int, r *rand.Rand) {
	c := l.c
	ip := []string{"127.0.0.1", "127.3.3.3", "::1", "127.0.9.9"}[k%4]
	u, err := newUClient(ip, l.up)
	must(c, err, "client")
	defer func() { u.close() }()
	ask := func(b []byte) (raw []byte, err error) {
		u.conn.Write(b)
		err = errNoAnswer
		for n := 0; err == errNoAnswer && n < 200 && !l.over.Load(); n++ {
			raw, err = u.recv(300 * time.Millisecond)
		}
		return
	}
	for i := 0; !l.over.Load(); i++ {
		if i%40 == 39 && r.Intn(2) == 0 { // a new address
			u.close()
			u, err = newUClient(ip, l.up)
			must(c, err, "client")
		}
		var b []byte
		tx := u.next()
		h := l.hashes[r.Intn(len(l.hashes))]
		a := annc{Hash: h, ID: PeerID{byte(k), byte(r.Intn(40))}, Left: int64(r.Intn(2)), Port: uint16(1 + r.Intn(9)), NumWant: int32(r.Intn(30) - 1), Event: uint32(r.Intn(4))}
		kind := ""
		switch r.Intn(9) {
		case 0:
			kind, b = "connect", pkConnect(tx)
		case 1, 2, 3:
			kind, b = "announce", pkAnnounce(u.cid, tx, a)
		case 4:
			kind, b = "scrape", pkScrape(u.cid, tx, append([]Hash{h}, l.hashes[:r.Intn(len(l.hashes))]...))
		case 5:
			kind, b = "heartbeat", heartbeatReq
		case 6:
			kind, b = "bad announce", pkAnnounce(u.cid+int64(r.Intn(2)), tx, annc{Hash: h})[:16+r.Intn(83)]
		case 7:
			kind, b = "bad action", pkAnnounce(u.cid, tx, a)
			b[8], b[11] = 7, byte(r.Intn(200))
		case 8: // never answered
			u.conn.Write(b[:0])
			u.conn.Write(pkConnect(1)[:r.Intn(16)])
			c.Count("runts", 2)
			continue
		}
		raw, err := ask(b)
		if err != nil {
			if !l.over.Load() {
				l.bad("a %s is not answered: %v", kind, err)
			}
			return
		}
		if kind == "heartbeat" {
			if !bytes.Equal(raw, []byte{0xff}) {
				l.bad("the heartbeat is answered with %x", raw)
			}
		} else if len(raw) < 8 || !bytes.Equal(raw[4:8], []byte{byte(tx >> 24), byte(tx >> 16), byte(tx >> 8), byte(tx)}) {
			l.bad("a %s with transaction %x is answered with %x", kind, tx, raw)
			return
		}
		if kind == "connect" || len(raw) >= 8 && raw[3] == 3 {
			// the id is gone after the expiry, get another
			raw, err := ask(pkConnect(tx))
			if err != nil && l.over.Load() {
				return
			}
			if err != nil || len(raw) != 16 {
				l.bad("connect: %x %v", raw, err)
				return
			}
			u.cid = int64(binary.BigEndian.Uint64(raw[8:]))
		}
		c.Count("udp_answers", 1)
	}
}

func (l *s07load) http(k int, r *rand.Rand) {
	c := l.c
	hc := hclient{[]string{"127.0.0.1", "127.3.3.4", "::1"}[k%3], l.hp}
	for !l.over.Load() {
		h := l.hashes[r.Intn(len(l.hashes))]
		a := hannc{Hash: h, ID: PeerID{byte(k), byte(r.Intn(40))}, Left: fmt.Sprint(r.Intn(2)), Port: fmt.Sprint(1 + r.Intn(9)), NumWant: fmt.Sprint(r.Intn(30)),
			Event: []string{"", "started", "stopped", "completed"}[r.Intn(4)], Compact: r.Intn(2) == 0, NoID: r.Intn(2) == 0}
		req := ""
		none := false
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			req = "GET /announce?" + a.query() + " HTTP/1.1\r\nHost: x\r\n"
			if l.heroku {
				req += "X-Forwarded-For: 1.2.3.4, " + []string{"9.8.7.6", "2001:db8::7", "rubbish", "10.0.0.1 "}[r.Intn(4)] + "\r\n"
			}
			req += "\r\n"
		case 4:
			req = "GET /scrape?info_hash=" + esc(h[:]) + " HTTP/1.1\r\n\r\n"
		case 5, 6:
			req = "GET /stats HTTP/1.1\r\n\r\n"
		case 7:
			req = "GET /" + []string{"", "index.html", "dmca.html", "nothing", "heartbeat"}[r.Intn(5)] + " HTTP/1.1\r\n\r\n"
		case 8:
			req = "GET /announce?port=0&info_hash=%zz" + " HTTP/1.1\r\n\r\n"
		case 9:
			b := make([]byte, 1+r.Intn(400))
			r.Read(b)
			req = string(b)
			none = true
		case 10: // cut off, or gone before the answer
			conn, err := hc.dial()
			if err == nil {
				full := "GET /announce?" + a.query() + " HTTP/1.1\r\n\r\n"
				conn.Write([]byte(full[:r.Intn(len(full)+1)]))
				if r.Intn(2) == 0 {
					conn.(*net.TCPConn).SetLinger(0)
				}
				conn.Close()
			}
			c.Count("http_aborted", 1)
			continue
		case 11:
			req = "POST /announce HTTP/1.1\r\n\r\n"
		}
		raw, err := hc.raw([]byte(req))
		if l.over.Load() {
			return
		}
		if err != nil {
			l.bad("%.80q is not answered: %v", req, err)
			return
		}
		if !none && !bytes.HasPrefix(raw, []byte("HTTP/1.")) {
			l.bad("%.80q is answered with %.80q", req, raw)
			return
		}
		c.Count("http_answers", 1)
	}
}

func s07bins() (out [][2]string) {
	for _, k := range []string{"", "_FAST", "_HEROKU"} {
		if b := os.Getenv("TRAKX_BIN" + k); b != "" {
			out = append(out, [2]string{strings.ToLower(strings.TrimPrefix(k, "_")), b})
		}
	}
	return
}

func args(kind string) []string {
	if kind == "heroku" {
		return nil
	}
	return []string{"execute"}
}

// trackerProblem reports a crash of a tracker process.
func trackerProblem(p *proc) string {
	if s := p.crash(); s != "" {
		return s
	}
	if l := p.log(); strings.Contains(l, "DATA RACE") {
		return lastBytes(l, 3000)
	}
	return ""
}

func monS07(c *Ctx) {
	bins := s07bins()
	for round := 0; round < 2*c.Scale && !c.TooMany(); round++ {
		bin := bins[round%len(bins)]
		r := c.Rand(fmt.Sprint("S07/", round))
		dir := scratch(c, fmt.Sprint("s07-", round))
		up, hp := freePort(c), freePort(c)
		path := dir + "/backup.db"
		hashes := append(similarHashes(r, 5), Hash{byte(round)})
		for run := 0; run < 2 && !c.TooMany(); run++ {
			cfg := s07cfg(r, up, hp, path)
			t0 := time.Now()
			p := launch(c, bin[1], dir, cfg, args(bin[0]))
			detail := map[string]any{"build": bin[0], "config": cfg}
			bad := func(f string, a ...any) {
				if s := trackerProblem(p); s != "" {
					f = "crash: " + f
					detail["crash"] = s
				}
				c.Violate(detail, f, a...)
			}
			if !p.ready(true, true) {
				bad("the tracker does not start: %s", lastBytes(p.log(), 2000))
				return
			}
			c.Max("max_start_ms", int(time.Since(t0).Milliseconds()))
			var over, loaded atomic.Bool
			var wg sync.WaitGroup
			for k := 0; k < 9; k++ {
				l := &s07load{c, bad, &over, up, hp, hashes, bin[0] == "heroku"}
				r := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					if k < 4 {
						l.udp(k, r)
					} else {
						l.http(k, r)
					}
				}(k)
			}
			stopLoad := make(chan struct{})
			go func() { wg.Wait(); close(stopLoad) }()
			// save signals go on during the load
			for end := time.Now().Add(3 * time.Second); time.Now().Before(end) && !p.exited() && !c.Violated(); {
				p.signal(syscall.SIGUSR1)
				c.Count("save_signals", 1)
				time.Sleep(time.Duration(20+r.Intn(180)) * time.Millisecond)
			}
			if p.exited() {
				bad("the tracker ended under load: %v", p.err)
				over.Store(true)
				<-stopLoad
				return
			}
			under := r.Intn(2) == 0
			if under {
				// the exit signal comes while requests are served
				loaded.Store(true)
				over.Store(true)
			} else {
				over.Store(true)
				<-stopLoad
				if !tryUDP(up) && !tryUDP(up) && !tryUDP(up) {
					bad("no answer after the load")
				}
			}
			p.signal([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.Intn(2)])
			t0 = time.Now()
			if !p.wait(60 * time.Second) {
				p.signal(syscall.SIGQUIT)
				p.wait(10 * time.Second)
				detail["log"] = lastBytes(p.log(), 20000)
				c.Violate(detail, "the tracker does not exit after load (deadlock)")
				p.cmd.Process.Kill()
			} else if p.code() != 0 {
				bad("exit %d after load: %s", p.code(), lastBytes(p.log(), 1500))
			}
			if s := p.crash(); s != "" {
				c.Violate(s, "the tracker crashed")
			}
			c.Max("max_exit_ms", int(time.Since(t0).Milliseconds()))
			<-stopLoad
			c.Max("max_load_end_ms", int(time.Since(t0).Milliseconds()))
			c.Count("trackers_loaded", 1)
			c.Eval(fmt.Sprint(bin[0], cfg))
			if round == 0 && run == 0 {
				c.Sample(map[string]any{"config": cfg, "udp_answers": c.Get("udp_answers"), "http_answers": c.Get("http_answers")})
			}
		}
	}
}

// monS07early signals trackers that are still starting.
func monS07early(c *Ctx) {
	bins := s07bins()
	r := c.Rand("S07early")
	// what a start takes here, so that signals reach every part of it
	dir := scratch(c, "early")
	up, hp := freePort(c), freePort(c)
	cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", dir+"/db", "expvarinterval", "5ms")
	start := time.Now()
	p := launch(c, bins[0][1], dir, cfg, args(bins[0][0]))
	if !p.ready(true, true) {
		c.Violate(lastBytes(p.log(), 2000), "the tracker does not start")
		return
	}
	took := time.Since(start)
	p.stop("first start")
	for i := 0; i < 12*c.Scale && !c.TooMany(); i++ {
		bin := bins[i%len(bins)]
		cfg := cfg.with("http.mode", []string{"enabled", "enabled", "info", "disabled"}[r.Intn(4)], "udp.enabled", []string{"true", "true", "false"}[r.Intn(3)])
		os.Remove(dir + "/log")
		p := launch(c, bin[1], dir, cfg, args(bin[0]))
		var wait time.Duration
		if r.Intn(2) == 0 {
			wait = time.Duration(r.Int63n(int64(2 * took)))
		} else { // about the moment the handler is installed
			wait = took*8/10 + time.Duration(r.Int63n(int64(took)/2))
		}
		time.Sleep(wait)
		sigs := []syscall.Signal{[]syscall.Signal{syscall.SIGUSR1, syscall.SIGINT, syscall.SIGTERM}[r.Intn(3)]}
		if r.Intn(2) == 0 {
			sigs = append(sigs, syscall.SIGTERM, syscall.SIGINT)
		}
		for _, s := range sigs {
			p.signal(s)
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
			}
		}
		// an ignored save signal leaves it running
		end := time.Now().Add(60 * time.Second)
		for !p.wait(100*time.Millisecond) && time.Now().Before(end) {
			p.signal(syscall.SIGTERM)
		}
		if !p.exited() {
			p.signal(syscall.SIGQUIT)
			p.wait(5 * time.Second)
			c.Violate(lastBytes(p.log(), 8000), "a tracker signalled while starting never ends")
			p.cmd.Process.Kill()
			continue
		}
		var how string
		if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			how = ws.Signal().String() // before the handler was there
		} else {
			how = fmt.Sprint("exit ", p.code())
		}
		if s := p.crash(); s != "" || (how != "exit 0" && strings.HasPrefix(how, "exit")) {
			c.Violate(map[string]any{"crash": s, "log": lastBytes(p.log(), 3000), "after": wait.String()}, "a tracker signalled with %v while starting ends with %s", sigs, how)
		}
		c.Count("early_signals", 1)
		c.Count("early_"+strings.ReplaceAll(how, " ", "_"), 1)
		c.Eval(fmt.Sprint(i, wait, sigs, how))
	}
}
