package mon

import (
	"bytes"
	"encoding/json"
	"expvar"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"net/netip"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	gomap "github.com/crimist/trakx/tracker/storage/map"
)

func init() {
	register("M01", monM01)
	register("M02", monM02)
}

// publisher runs the tracker's publication and sees every one of them.
type publisher struct {
	n      atomic.Int64
	mu     sync.Mutex
	sums   map[string]int64
	last   map[string]int64
	worst  string // first negative or undecodable figure
	onTick func()
}

const figPrefix = "trakx."

// startPublisher publishes every interval; read is called within each.
func startPublisher(db *gomap.Memory, interval time.Duration, conns func() int64) *publisher {
	p := &publisher{sums: map[string]int64{}}
	config.Config.ExpvarInterval = interval
	go stats.Publish(db, func() int64 {
		v := readFigures()
		p.mu.Lock()
		for k, x := range v {
			p.sums[k] += x
		}
		p.last = v
		f := p.onTick
		p.mu.Unlock()
		if f != nil {
			f()
		}
		p.n.Add(1)
		return conns()
	})
	return p
}

func readFigures() map[string]int64 {
	v := map[string]int64{}
	expvar.Do(func(kv expvar.KeyValue) {
		if x, ok := kv.Value.(*expvar.Int); ok && strings.HasPrefix(kv.Key, figPrefix) {
			v[strings.TrimPrefix(kv.Key, figPrefix)] = x.Value()
		}
	})
	return v
}

// settle waits until everything published was read after this call.
func (p *publisher) settle(c *Ctx, n int64) {
	start := p.n.Load()
	for end := time.Now().Add(60 * time.Second); p.n.Load() < start+n; time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			c.Violate(nil, "publication stopped")
			c.Flush(true)
			os.Exit(0)
		}
	}
}

// held is what the database really holds, according to its listings.
func held(db *gomap.Memory, hashes []Hash) (s, l int64, ips int, err error) {
	set := map[netip.Addr]bool{}
	for _, h := range hashes {
		ls, e := peerList(db, h, 1<<20, false)
		if e != nil {
			return 0, 0, 0, e
		}
		a, b := counts(db, h)
		if a+b != int64(len(ls)) {
			return 0, 0, 0, fmt.Errorf("torrent %x: counts %d/%d, %d peers", h, a, b, len(ls))
		}
		s, l = s+a, l+b
		for _, x := range ls {
			set[x.IP] = true
		}
	}
	return s, l, len(set), nil
}

func monM01(c *Ctx) {
	config.Config.UDP.Threads = 3
	config.Config.HTTP.Threads = 4
	config.Config.Numwant.Limit = 1 << 20
	db := newDB(c)
	s := startServers(c, db, true, true)
	p := startPublisher(db, 10*time.Millisecond, func() int64 { return int64(s.udp.Connections()) })
	p.settle(c, 2)
	fast := isFast(c)
	r := c.Rand("M01")
	hashes := similarHashes(r, 12)
	var ips []netip.Addr
	for i := 0; i < 12; i++ {
		ips = append(ips, randIP(r))
	}
	var conns []*uclient
	for round := 0; round < 12*c.Scale && !c.TooMany(); round++ {
		// concurrent history: every worker has its own peers, addresses are shared
		expiring := round%4 == 3
		if expiring {
			config.Config.DB.Expiry = 0
			time.Sleep(1100 * time.Millisecond)
		}
		n := 150 + r.Intn(400)
		want := len(conns)
		var mu sync.Mutex
		c.workers(6, "announces with sweeps", func(k int) {
			r := rand.New(rand.NewSource(int64(round)<<16 + int64(k) + c.Seed<<32))
			var u *uclient
			if k < 3 {
				var err error
				u, err = newUClient(some(r, 1, sources("127.0.0.1", "::1", "127.4.4.4"))[0], s.udpPort)
				must(c, err, "client")
				if err := u.connect(); err != nil {
					c.Violate(nil, "connect: %v", err)
					return
				}
				mu.Lock()
				conns = append(conns, u)
				want++
				mu.Unlock()
			}
			for i := 0; i < n; i++ {
				h := hashes[r.Intn(len(hashes))]
				id := PeerID{byte(k), byte(r.Intn(10)), 3}
				switch x := r.Intn(40); {
				case x < 22:
					db.Save(ips[r.Intn(len(ips))], uint16(1+r.Intn(9)), r.Intn(2) == 0, h, id)
				case x < 33:
					db.Drop(h, id)
				case x < 35 && k == 5:
					db.Trim()
				case x < 37 && u != nil:
					a := annc{Hash: h, ID: id, Left: int64(r.Intn(2)), Port: 7, NumWant: 3, Event: uint32(r.Intn(4))}
					if _, err := u.announce(a); err != nil {
						c.Violate(nil, "announce: %v", err)
					}
				case x < 38 && u != nil && r.Intn(4) == 0:
					u.connect() // the same address again
				case x < 40:
					hc := hclient{some(r, 1, sources("127.0.0.1"))[0], s.httpPort}
					hc.announce(hannc{Hash: h, ID: id, Left: fmt.Sprint(r.Intn(2)), Port: "8", NumWant: "1", Event: []string{"", "stopped", "completed"}[r.Intn(3)]})
				}
				c.Count("operations", 1)
			}
		})
		if expiring {
			db.Trim()
			config.Config.DB.Expiry = 48 * time.Hour
		}
		if r.Intn(3) == 0 {
			for _, h := range hashes {
				for k := 0; k < 6; k++ {
					for i := 0; i < 10; i++ {
						db.Drop(h, PeerID{byte(k), byte(i), 3})
					}
				}
			}
			if r.Intn(2) == 0 {
				db.Trim()
			}
		}
		p.settle(c, 3)
		p.mu.Lock()
		fig := p.last
		p.mu.Unlock()
		ws, wl, wips, err := held(db, hashes)
		if err != nil {
			c.Violate(nil, "%v", err)
		}
		exp := map[string]int64{"database.hashes": int64(db.Hashes()), "database.udpconnections": int64(want)}
		if !fast {
			exp["database.seeds"], exp["database.leeches"], exp["database.peers"], exp["database.ips"] = ws, wl, ws+wl, int64(wips)
		} else {
			exp["database.seeds"], exp["database.leeches"], exp["database.peers"] = fig["database.seeds"], fig["database.leeches"], fig["database.peers"]
		}
		for k, w := range exp {
			g, ok := fig[k]
			if !ok || g != w {
				c.Violate(map[string]any{"round": round, "published": fig, "held": exp}, "%s is published as %d (%v), the tracker holds %d", k, g, ok, w)
			}
			c.Count("figures_compared", 1)
		}
		c.Eval(fmt.Sprint(round, exp))
		if round == 0 {
			c.Sample(exp)
		}
		if round%5 == 4 { // the same over HTTP
			v, err := fetchStats(s.httpPort)
			if err != nil {
				c.Violate(nil, "statistics: %v", err)
			}
			for k, w := range exp {
				if v[k] != w {
					c.Violate(v, "the statistics answer says %s is %d, want %d", k, v[k], w)
				}
			}
		}
	}
	s.stop()
	if !c.Violated() {
		m01restart(c)
	}
}

// fetchStats returns the tracker's figures of a statistics answer.
func fetchStats(port int) (map[string]int64, error) {
	raw, err := hclient{"", port}.raw([]byte("GET /stats HTTP/1.1\r\nHost: t\r\n\r\n"))
	if err != nil {
		return nil, err
	}
	return parseStats(raw)
}

func parseStats(raw []byte) (map[string]int64, error) {
	st, body, err := splitHTTP(raw)
	if err != nil || st != "200" {
		return nil, fmt.Errorf("status %q %v", st, err)
	}
	d := json.NewDecoder(bytes.NewReader(body))
	var v map[string]json.RawMessage
	if err := d.Decode(&v); err != nil {
		return nil, fmt.Errorf("not JSON: %v: %.300q", err, body)
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("something follows the document: %.100q", body[d.InputOffset():])
	}
	out := map[string]int64{}
	for k, x := range v {
		if strings.HasPrefix(k, figPrefix) {
			var n int64
			if err := json.Unmarshal(x, &n); err != nil {
				return nil, fmt.Errorf("%s is %s", k, x)
			}
			out[strings.TrimPrefix(k, figPrefix)] = n
		}
	}
	return out, nil
}

// m01restart compares the figures of real trackers across restarts.
func m01restart(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	if bin == "" {
		return
	}
	r := c.Rand("M01/restart")
	for round := 0; round < 1+c.Scale/3; round++ {
		up, hp := freePort(c), freePort(c)
		dir := scratch(c, fmt.Sprint("m01-", round))
		cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", dir+"/db", "expvarinterval", "50ms")
		m := model{}
		conns := map[string]bool{}
		hashes := similarHashes(r, 4)
		for run := 0; run < 4; run++ {
			p := launch(c, bin, dir, cfg, []string{"execute"})
			if !p.ready(true, true) {
				c.Violate(lastBytes(p.log(), 2000), "the tracker does not start")
				return
			}
			check := func(what string) {
				s, l := m.totals()
				want := map[string]int64{"database.seeds": s, "database.leeches": l, "database.peers": s + l, "database.udpconnections": int64(len(conns)), "database.ips": int64(m.ips())}
				if isFast(c) {
					want = map[string]int64{"database.udpconnections": int64(len(conns))}
				}
				var v map[string]int64
				var err error
				bad := "x"
				// two publications later everything must be there; slow machines get longer
				for i := 0; i < 200 && bad != ""; i++ {
					time.Sleep(60 * time.Millisecond)
					v, err = fetchStats(hp)
					bad = ""
					for k, w := range want {
						if v[k] != w {
							bad += fmt.Sprintf("%s is %d, want %d; ", k, v[k], w)
						}
					}
					if err != nil {
						bad = err.Error()
					}
					if h := v["database.hashes"]; h < int64(m.torrents()) || h > int64(len(hashes)) {
						bad += fmt.Sprintf("%d torrents, want %d", h, m.torrents())
					}
					if i > 100 && p.exited() {
						break
					}
				}
				if bad != "" {
					c.Violate(v, "%s of run %d: %s", what, run, bad)
				}
				c.Count("restart_figures_compared", len(want))
			}
			check("start")
			if c.Violated() {
				p.kill()
				return
			}
			if run == 3 { // those who were restored leave again, one at a time
				type member struct {
					h  Hash
					id PeerID
				}
				var all []member
				for _, h := range hashes {
					for id := range m[h] {
						all = append(all, member{h, id})
					}
				}
				sort.Slice(all, func(i, j int) bool {
					return string(all[i].h[:])+string(all[i].id[:]) < string(all[j].h[:])+string(all[j].id[:])
				})
				r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
				for i, x := range all {
					if _, err := (hclient{"127.0.0.1", hp}).announce(hannc{Hash: x.h, ID: x.id, Port: "78", Event: "stopped"}); err != nil {
						c.Violate(nil, "stop: %v", err)
					}
					m.drop(x.h, x.id)
					if left := len(all) - 1 - i; left%6 == 0 || left < 6 {
						check(fmt.Sprintf("%d of %d restored peers left", i+1, len(all)))
						if c.Violated() {
							p.kill()
							return
						}
					}
				}
				c.Count("restored_peers_that_left", len(all))
			}
			var us []*uclient
			for i := 0; i < 3; i++ {
				u, err := newUClient([]string{"127.0.0.1", "127.5.5.5", "::1"}[i], up)
				must(c, err, "client")
				defer u.close()
				must(c, u.connect(), "connect")
				conns[u.addr.String()] = true
				us = append(us, u)
			}
			for i := 0; i < 60; i++ {
				h, id := hashes[r.Intn(4)], PeerID{byte(r.Intn(12))}
				left := int64(r.Intn(2))
				if r.Intn(2) == 0 {
					u := us[r.Intn(3)]
					a := annc{Hash: h, ID: id, Left: left, Port: 77, NumWant: 1}
					if r.Intn(4) == 0 {
						a.Event = 3
					}
					if _, err := u.announce(a); err != nil {
						c.Violate(nil, "announce: %v", err)
					}
					if a.Event == 3 {
						m.drop(h, id)
					} else {
						m.save(h, id, mpeer{IP: u.addr.Addr(), Complete: left == 0})
					}
				} else {
					ip := []string{"127.0.0.1", fmt.Sprint("127.5.5.", 6+r.Intn(6)), "::1"}[r.Intn(3)]
					a := hannc{Hash: h, ID: id, Left: fmt.Sprint(left), Port: "78", NumWant: "1"}
					if r.Intn(4) == 0 {
						a.Event = "stopped"
					}
					if _, err := (hclient{ip, hp}).announce(a); err != nil {
						c.Violate(nil, "announce: %v", err)
					}
					if a.Event != "" {
						m.drop(h, id)
					} else {
						m.save(h, id, mpeer{IP: mustAddr(ip), Complete: left == 0})
					}
				}
			}
			check("traffic")
			c.Eval(fmt.Sprint("restart", round, run))
			if run == 2 {
				p.signal(syscall.SIGTERM)
				p.wait(60 * time.Second)
			}
			p.stop("tracker")
			c.Count("restarts", 1)
		}
	}
}

// ---- M02

type m02sent struct{ hits, connects, announces, scrapes, rejectedAnnounces, rejectedScrapes, errors int64 }

// m02early sends requests while nothing is published yet.
func m02early(c *Ctx, s *srv) map[string]int64 {
	u, err := newUClient("127.0.0.1", s.udpPort)
	must(c, err, "client")
	defer u.close()
	must(c, u.connect(), "connect")
	hc := hclient{"127.0.0.1", s.httpPort}
	for i := 0; i < 7; i++ {
		h, id := Hash{1}, PeerID{2, byte(i)}
		if _, err := u.announce(annc{Hash: h, ID: id, Port: 9, NumWant: 5}); err != nil {
			c.Violate(nil, "announce: %v", err)
		}
		if _, err := hc.announce(hannc{Hash: h, ID: id, Port: "9"}); err != nil {
			c.Violate(nil, "announce: %v", err)
		}
		if _, err := u.scrape([]Hash{h}); err != nil {
			c.Violate(nil, "scrape: %v", err)
		}
	}
	return map[string]int64{"hits": 22, "connects": 1, "announces": 14, "scrapes": 7}
}

func monM02(c *Ctx) {
	config.Config.UDP.Threads = 4
	config.Config.HTTP.Threads = 6
	db := newDB(c)
	s := startServers(c, db, true, true)
	// what startServers sent is on the books already
	for _, x := range []interface{ Store(int64) }{&stats.Hits, &stats.Connects, &stats.Announces, &stats.Scrapes} {
		x.Store(0)
	}
	// what comes before the first publication counts too
	early := m02early(c, s)
	p := startPublisher(db, time.Millisecond, func() int64 { return 0 })
	p.settle(c, 3)
	p.mu.Lock()
	for k, want := range early {
		if p.sums["requests."+k] != want {
			c.Violate(p.sums, "%d %s before the first publication, %d published", want, k, p.sums["requests."+k])
		}
		c.Count("early_sums_compared", 1)
	}
	p.mu.Unlock()
	errorsBefore := stats.ClientErrors.Load()
	var total m02sent
	for round := 0; round < 6*c.Scale && !c.TooMany(); round++ {
		p.settle(c, 3)
		p.mu.Lock()
		p.sums = map[string]int64{}
		p.mu.Unlock()
		var sent m02sent
		var mu sync.Mutex
		rejects := round%2 == 1
		c.workers(10, "requests", func(k int) {
			r := rand.New(rand.NewSource(int64(round)<<16 + int64(k) + c.Seed<<32))
			var my m02sent
			defer func() {
				mu.Lock()
				sent.hits += my.hits
				sent.connects += my.connects
				sent.announces += my.announces
				sent.scrapes += my.scrapes
				sent.rejectedAnnounces += my.rejectedAnnounces
				sent.rejectedScrapes += my.rejectedScrapes
				sent.errors += my.errors
				mu.Unlock()
			}()
			var u *uclient
			if k < 5 {
				var err error
				u, err = newUClient("127.0.0.1", s.udpPort)
				must(c, err, "client")
				defer u.close()
				my.hits++
				my.connects++
				if err := u.connect(); err != nil {
					c.Violate(nil, "connect: %v", err)
					return
				}
			}
			hc := hclient{"127.0.0.1", s.httpPort}
			for i := 0; i < 60; i++ {
				h, id := Hash{byte(r.Intn(5))}, PeerID{byte(k), byte(r.Intn(5))}
				x := r.Intn(6)
				if rejects {
					x = r.Intn(10)
				}
				my.hits++
				if u != nil {
					switch x {
					case 0:
						my.connects++
						if err := u.connect(); err != nil {
							c.Violate(nil, "connect: %v", err)
						}
					case 1, 2, 3:
						my.announces++
						if _, err := u.announce(annc{Hash: h, ID: id, Port: 9, Event: uint32(r.Intn(4)), NumWant: 5}); err != nil {
							c.Violate(nil, "announce: %v", err)
						}
					case 4:
						my.scrapes++
						if _, err := u.scrape([]Hash{h, {9}}); err != nil {
							c.Violate(nil, "scrape: %v", err)
						}
					case 5:
						if b, err := u.rpc(heartbeatReq); err != nil || len(b) != 1 {
							c.Violate(nil, "heartbeat: %x %v", b, err)
						}
					default:
						b := pkAnnounce(u.cid, 1, annc{Hash: h, ID: id, NumWant: 5})
						switch x {
						case 6: // port 0
							my.rejectedAnnounces++
						case 7:
							b = pkAnnounce(u.cid+1, 1, annc{Hash: h, ID: id, Port: 4})
						case 8:
							b = b[:50]
						case 9:
							b[11] = 9
						}
						my.errors++
						if raw, err := u.rpc(b); err != nil || len(raw) < 8 || raw[3] != 3 {
							c.Violate(nil, "bad request answered with %x %v", raw, err)
						}
					}
					continue
				}
				switch x {
				case 0:
					if b, err := hc.raw([]byte("GET /" + []string{"", "heartbeat", "nothing", "dmca.html"}[r.Intn(4)] + " HTTP/1.1\r\n\r\n")); err != nil || len(b) == 0 {
						c.Violate(nil, "page: %v", err)
					}
				case 1, 2:
					my.announces++
					if a, err := hc.announce(hannc{Hash: h, ID: id, Port: "9", Event: []string{"", "stopped", "completed"}[r.Intn(3)]}); err != nil || a.Failure != "" {
						c.Violate(nil, "announce: %v %v", a.Failure, err)
					}
				case 3:
					my.scrapes++
					if _, err := hc.scrape([]Hash{h, {8}}); err != nil {
						c.Violate(nil, "scrape: %v", err)
					}
				case 4, 5:
					raw, err := hc.raw([]byte("GET /stats HTTP/1.1\r\nHost: t\r\n\r\n"))
					v := map[string]int64{}
					if err == nil {
						v, err = parseStats(raw)
					}
					if err != nil || len(v) < 6 {
						c.Violate(fmt.Sprintf("%.2000q", raw), "the statistics answer is not one JSON document with the tracker's figures: %v", err)
					}
					c.Count("statistics_answers_decoded", 1)
				case 6:
					my.rejectedAnnounces++
					my.errors++
					a, err := hc.announce(hannc{Hash: h, ID: id, Port: "x"})
					if err != nil || a.Failure == "" {
						c.Violate(nil, "bad announce answered with %q %v", a.Body, err)
					}
				case 7:
					my.rejectedScrapes++
					my.errors++
					if _, f, err := func() (map[Hash][2]int64, string, error) {
						raw, err := hc.raw([]byte("GET /scrape?info_hash=short HTTP/1.1\r\n\r\n"))
						if err != nil {
							return nil, "", err
						}
						return decodeHScrape(raw)
					}(); err != nil || f == "" {
						c.Violate(nil, "bad scrape answered with %q %v", f, err)
					}
				case 8:
					my.rejectedScrapes++
					my.errors++
					hc.raw([]byte("GET /scrape?nothing=1 HTTP/1.1\r\n\r\n"))
				case 9: // malformed, gets a status and no failure answer
					hc.raw([]byte("POST /announce HTTP/1.1\r\n\r\n"))
				}
			}
		})
		p.settle(c, 4)
		p.mu.Lock()
		sums := maps.Clone(p.sums)
		p.mu.Unlock()
		c.Count("requests", int(sent.hits))
		detail := map[string]any{"round": round, "sent": fmt.Sprintf("%+v", sent), "published": map[string]int64{"hits": sums["requests.hits"], "connects": sums["requests.connects"], "announces": sums["requests.announces"], "scrapes": sums["requests.scrapes"]}}
		exact := func(name string, got, least, most int64) {
			if got < least || got > most {
				c.Violate(detail, "the windows sum up to %d %s, %d to %d were received", got, name, least, most)
			}
			c.Count("sums_compared", 1)
		}
		exact("hits", sums["requests.hits"], sent.hits, sent.hits)
		exact("connects", sums["requests.connects"], sent.connects, sent.connects)
		exact("announces", sums["requests.announces"], sent.announces, sent.announces+sent.rejectedAnnounces)
		exact("scrapes", sums["requests.scrapes"], sent.scrapes, sent.scrapes+sent.rejectedScrapes)
		total.errors += sent.errors
		if got := stats.ClientErrors.Load() - errorsBefore; got != total.errors {
			c.Violate(detail, "%d client errors are counted, %d failure answers were given", got, total.errors)
		}
		p.mu.Lock()
		pub := p.last["errors.client"]
		p.mu.Unlock()
		if pub-errorsBefore != total.errors {
			c.Violate(detail, "%d client errors are published, %d failure answers were given", pub-errorsBefore, total.errors)
		}
		c.Eval(fmt.Sprint(round, sent))
	}
	c.Count("publication_windows", int(p.n.Load()))
	s.stop()
}
