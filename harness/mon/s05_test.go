package mon

import (
	"fmt"
	"math/rand"
	"net/netip"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
)

func init() {
	register("S05", monS05)
	register("S06", monS06)
	register("S08", monS08)
}

// poisonPools leaves pooled objects as earlier requests may leave them: lists
// full of other peers, dictionaries written to, peers of other torrents.
func poisonPools(r *rand.Rand) {
	n := 1 + r.Intn(4)
	var l4, l6 [][]byte
	for i := 0; i < n; i++ {
		l4 = append(l4, pools.Peerlists4.Get())
		l6 = append(l6, pools.Peerlists6.Get())
	}
	for i := 0; i < n; i++ {
		a, b := l4[i][:cap(l4[i])], l6[i][:cap(l6[i])]
		for j := range a {
			a[j] = 0xEE
		}
		for j := range b {
			b[j] = 0xEE
		}
		// an answer may have used any part of the buffer
		pools.Peerlists4.Put(a[:6*r.Intn(len(a)/6+1)])
		pools.Peerlists6.Put(b[:18*r.Intn(len(b)/18+1)])
	}
	d := pools.Dictionaries.Get()
	d.String("leftover", "leftover")
	d.Int64("complete", 424242)
	pools.Dictionaries.Put(d)
	p := pools.Peers.Get()
	*p = storage.Peer{Complete: true, IP: netip.MustParseAddr("238.238.238.238"), Port: 0xEEEE, LastSeen: 1}
	pools.Peers.Put(p)
}

func monS05(c *Ctx) {
	// every small composition of a swarm with every small wanted number
	for _, limit := range []uint{1, 2, 3, 7, 50, 200} {
		config.Config.Numwant.Limit = limit
		initPools(int(limit))
		r := c.Rand(fmt.Sprint("S05/", limit))
		db := newDB(c)
		for n4 := 0; n4 <= 6; n4++ {
			for n6 := 0; n6 <= 6; n6++ {
				h := Hash{byte(n4), byte(n6), byte(limit)}
				s05fill(db, r, h, n4, n6, limit, c)
				if c.TooMany() {
					return
				}
			}
		}
		for k := 0; k < 6*c.Scale; k++ { // larger ones around the limit
			n4, n6 := r.Intn(int(limit)+4), r.Intn(int(limit)+4)
			h := Hash{byte(k), byte(k >> 8), 77, byte(limit)}
			s05fill(db, r, h, n4, n6, limit, c)
		}
	}
	s05net(c)
}

func s05fill(db *gomap.Memory, r *rand.Rand, h Hash, n4, n6 int, limit uint, c *Ctx) {
	m := model{}
	k := 0
	mixed := r.Intn(4) // 0: leechers only, 1: seeders only
	save := func(v6 bool) {
		p := mpeer{Complete: complete(r, mixed), Port: uint16(1 + r.Intn(65535))}
		if r.Intn(3) == 0 {
			p.Port = []uint16{1, 255, 256, 0x0102, 65535}[r.Intn(5)]
		}
		if v6 {
			var b [16]byte
			r.Read(b[:])
			b[0] = 0x20
			p.IP = netip.AddrFrom16(b)
		} else {
			var b [4]byte
			r.Read(b[:])
			p.IP = netip.AddrFrom4(b)
		}
		id := PeerID{byte(k), byte(k >> 8), 5}
		k++
		db.Save(p.IP, p.Port, p.Complete, h, id)
		m.save(h, id, p)
	}
	for i := 0; i < n4; i++ {
		save(false)
	}
	for i := 0; i < n6; i++ {
		save(true)
	}
	// some leave, some change address or family, and the numbers are restored
	for id, p := range m[h] {
		switch r.Intn(8) {
		case 0:
			db.Drop(h, id)
			m.drop(h, id)
			save(!p.IP.Is4())
		case 1:
			was4 := p.IP.Is4()
			if was4 {
				p.IP = netip.AddrFrom16([16]byte{0x20, 1, byte(k), byte(r.Intn(256))})
			} else {
				p.IP = netip.AddrFrom4([4]byte{9, byte(k), byte(k >> 8), byte(r.Intn(256))})
			}
			db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
		}
	}
	m4, m6 := families(m[h])
	wants := map[uint]bool{0: true, 1: true, 2: true, 3: true, limit: true, limit - 1: true, uint(m4): true, uint(m6): true, uint(m4 + m6): true, uint(m4 + m6 + 1): true, uint(r.Intn(int(limit) + 1)): true}
	for want := range wants {
		if want > limit {
			continue
		}
		poisonPools(r)
		noID := r.Intn(2) == 0
		ls, err := peerList(db, h, want, noID)
		exp := min(int(want), m4+m6)
		if err != nil || len(ls) != exp {
			c.Violate(nil, "limit %d, %d+%d peers, %d wanted: %d entries listed, want %d %v", limit, m4, m6, want, len(ls), exp, err)
		} else if d := subMultiset(ls, m[h]); d != "" {
			c.Violate(nil, "limit %d, %d+%d peers, %d wanted: %s", limit, m4, m6, want, d)
		}
		if d := dupIDs(ls); d != "" {
			c.Violate(nil, "%s", d)
		}
		l4, l6, err := compactLists(db, h, want)
		if err != nil {
			c.Violate(nil, "compact list: %v", err)
		} else if len(l4) != min(int(want), m4) || len(l6) != min(int(want), m6) {
			c.Violate(nil, "limit %d, %d+%d peers, %d wanted: compact lists have %d and %d entries", limit, m4, m6, want, len(l4), len(l6))
		} else if d := subMultiset(append(l4, l6...), m[h]); d != "" {
			c.Violate(nil, "limit %d, %d+%d peers, %d wanted: compact: %s", limit, m4, m6, want, d)
		}
		c.Count("lists", 3)
		c.Eval(fmt.Sprint(limit, m4, m6, want, noID))
	}
}

// complete says whether a member of a swarm of that mixture is a seeder.
func complete(r *rand.Rand, mixed int) bool {
	switch mixed {
	case 0:
		return false
	case 1:
		return true
	}
	return r.Intn(2) == 0
}

func dupIDs(ls []listed) string {
	seen := map[string]bool{}
	for _, l := range ls {
		if l.ID != "" && seen[l.ID] {
			return fmt.Sprintf("peer %x is listed twice", l.ID)
		}
		seen[l.ID] = true
	}
	return ""
}

// s05net checks the wanted number as the transports understand it.
func s05net(c *Ctx) {
	for round, cfg := range [][2]uint{{3, 7}, {5, 5}, {1, 40}, {75, 200}, {9, 4}, {300, 30}} {
		config.Config.Numwant.Default, config.Config.Numwant.Limit = cfg[0], cfg[1]
		def, limit := int(cfg[0]), int(cfg[1])
		initPools(limit)
		s := startServers(c, newDB(c), true, true)
		r := c.Rand(fmt.Sprint("S05/net/", round))
		u4, err := newUClient("127.0.0.1", s.udpPort)
		must(c, err, "client")
		must(c, u4.connect(), "connect")
		u6, err := newUClient("::1", s.udpPort)
		must(c, err, "client")
		must(c, u6.connect(), "connect")
		for k := 0; k < 25*c.Scale && !c.TooMany(); k++ {
			h := Hash{byte(k), byte(k >> 8), byte(round), 99}
			m := model{}
			var n4, n6 int
			switch r.Intn(3) {
			case 0:
				n4, n6 = r.Intn(4), r.Intn(4)
			case 1:
				n4, n6 = r.Intn(limit+3), r.Intn(limit+3)
			default:
				n4, n6 = r.Intn(2*limit), r.Intn(3)
			}
			mixed := r.Intn(4)
			for i := 0; i < n4+n6; i++ {
				p := mpeer{Complete: complete(r, mixed), Port: uint16(1 + r.Intn(65535)), IP: netip.AddrFrom4([4]byte{10, byte(r.Intn(256)), byte(i), byte(i >> 8)})}
				if i >= n4 {
					p.IP = netip.AddrFrom16([16]byte{0x20, byte(r.Intn(256)), 5: byte(i), 15: byte(i >> 8)})
				}
				id := PeerID{byte(i), byte(i >> 8), 1}
				s.db.Save(p.IP, p.Port, p.Complete, h, id)
				m.save(h, id, p)
			}
			for _, want := range []int64{-1, 0, 1, 2, int64(def), int64(limit) - 1, int64(limit), int64(limit) + 1, 2*int64(limit) + 5, 1 << 30, 1<<31 - 1, 1 << 31, 3e9, 1<<32 - 1, 1<<32 + 1, 1<<63 - 1, int64(len(m[h])), int64(1 + r.Intn(limit))} {
				poisonPools(r)
				self := PeerID{0xff, 0xff}
				port := uint16(1 + r.Intn(65535))
				eff := want
				if want < 0 {
					eff = int64(def)
				}
				if eff > int64(limit) {
					eff = int64(limit)
				}
				// over UDP
				u := u4
				if r.Intn(2) == 0 {
					u = u6
				}
				seeder := complete(r, mixed)
				left := 1
				if seeder {
					left = 0
				}
				m.save(h, self, mpeer{IP: u.addr.Addr(), Port: port, Complete: seeder})
				ans, err := u.announce(annc{Hash: h, ID: self, Left: int64(left), NumWant: int32(min(want, 1<<31-1)), Port: port})
				if err != nil {
					c.Violate(nil, "announce: %v", err)
					continue
				}
				m4, m6 := families(m[h])
				exp := min(int(eff), m4)
				if u == u6 {
					exp = min(int(eff), m6)
				}
				where := fmt.Sprintf("default %d, limit %d, %d+%d peers, %d wanted", def, limit, m4, m6, want)
				if want == 0 { // no preference over UDP
					exp = min(def, limit, m4)
					if u == u6 {
						exp = min(def, limit, m6)
					}
				}
				if len(ans.Peers) != exp {
					c.Violate(nil, "%s: UDP answer lists %d, want %d", where, len(ans.Peers), exp)
				} else if d := subMultiset(ans.Peers, m[h]); d != "" {
					c.Violate(nil, "%s: UDP answer: %s", where, d)
				}
				// over HTTP
				hc := hclient{"127.0.0.1", s.httpPort}
				ip := netip.MustParseAddr("127.0.0.1")
				if r.Intn(2) == 0 {
					hc.ip, ip = "::1", netip.MustParseAddr("::1")
				}
				a := hannc{Hash: h, ID: self, Port: fmt.Sprint(port), Left: fmt.Sprint(left), Compact: r.Intn(2) == 0, NoID: r.Intn(2) == 0}
				if want >= 0 {
					a.NumWant = fmt.Sprint(want)
				}
				m.save(h, self, mpeer{IP: ip, Port: port, Complete: seeder})
				m4, m6 = families(m[h])
				ha, err := hc.announce(a)
				if err != nil || ha.Failure != "" {
					c.Violate(nil, "%s: HTTP announce: %v %s", where, err, ha.Failure)
					continue
				}
				if a.Compact {
					if len(ha.Compact4) != min(int(eff), m4) || len(ha.Compact6) != min(int(eff), m6) || ha.IsList {
						c.Violate(nil, "%s: compact HTTP answer lists %d+%d", where, len(ha.Compact4), len(ha.Compact6))
					} else if d := subMultiset(append(ha.Compact4, ha.Compact6...), m[h]); d != "" {
						c.Violate(nil, "%s: compact HTTP answer: %s", where, d)
					}
				} else {
					if len(ha.Peers) != min(int(eff), m4+m6) {
						c.Violate(nil, "%s: HTTP answer lists %d", where, len(ha.Peers))
					} else if d := subMultiset(ha.Peers, m[h]); d != "" {
						c.Violate(nil, "%s: HTTP answer: %s", where, d)
					} else if d := dupIDs(ha.Peers); d != "" {
						c.Violate(nil, "%s: HTTP answer: %s", where, d)
					}
					for _, l := range ha.Peers {
						if (l.ID == "") != a.NoID {
							c.Violate(nil, "%s: peer ids although not wanted or none although wanted", where)
							break
						}
					}
				}
				for _, bad := range []int64{-2, -1 << 31} { // none given
					ans, err := u4.announce(annc{Hash: h, ID: self, Left: 1, NumWant: int32(bad), Port: port})
					m.save(h, self, mpeer{IP: u4.addr.Addr(), Port: port})
					if n4, _ := families(m[h]); err != nil || len(ans.Peers) != min(def, limit, n4) {
						c.Violate(nil, "%s: UDP answer to numwant %d lists %d %v", where, bad, len(ans.Peers), err)
					}
				}
				c.Count("answers", 4)
				c.Eval(where)
			}
		}
		s.stop()
		s.db = nil
	}
}

// ---- S06: whose data is in an answer

// s06rec is one announce; ports are unique, so a listed pair names its announce.
type s06rec struct {
	torrent    int
	ip         netip.Addr
	start, end int64 // may be listed from start on; 0 or the return of what replaced it
	id         PeerID
}

type s06log struct {
	mu   sync.Mutex
	recs map[uint16]*s06rec
	next uint32
}

func (l *s06log) add(t int, ip netip.Addr, id PeerID) uint16 {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.next++
	if l.next > 65000 {
		return 0
	}
	p := uint16(l.next)*40503 | 0 // spread over both bytes; odd factor, so unique
	l.recs[p] = &s06rec{torrent: t, ip: ip, start: clock(), id: id}
	return p
}

func (l *s06log) ended(p uint16) {
	if p == 0 {
		return
	}
	l.mu.Lock()
	l.recs[p].end = clock()
	l.mu.Unlock()
}

// judge is called after a request of [from, to] was answered with ls.
func (l *s06log) judge(t int, from, to int64, ls []listed) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, e := range ls {
		r := l.recs[e.Port]
		switch {
		case r == nil || r.ip != e.IP:
			return fmt.Sprintf("%v:%d was never announced like this", e.IP, e.Port)
		case r.torrent != t:
			return fmt.Sprintf("%v:%d belongs to torrent %d, the request is for %d", e.IP, e.Port, r.torrent, t)
		case r.end != 0 && r.end < from:
			return fmt.Sprintf("%v:%d had been replaced or removed before the request", e.IP, e.Port)
		case r.start > to:
			return fmt.Sprintf("%v:%d is from the future", e.IP, e.Port)
		case e.ID != "" && e.ID != string(r.id[:]):
			return fmt.Sprintf("%v:%d is listed for peer %x, announced by %x", e.IP, e.Port, e.ID, r.id)
		}
	}
	return ""
}

func monS06(c *Ctx) {
	config.Config.UDP.Threads = 6
	config.Config.HTTP.Threads = 6
	race := strings.Contains(c.Variant, "race")
	var limit int
	var db *gomap.Memory
	var s *srv
	for round := 0; round < c.Scale && !c.TooMany(); round++ {
		if !race || round == 0 { // settings must not change under a running tracker
			limit = []int{5, 20, 200}[(round+int(c.Seed))%3]
			config.Config.Numwant.Limit = uint(limit)
			config.Config.Numwant.Default = uint(limit)
			initPools(limit)
			db = newDB(c)
			s = startServers(c, db, true, true)
		}
		lg := &s06log{recs: map[uint16]*s06rec{}}
		const nt = 6
		hashes := make([]Hash, nt)
		for i := range hashes {
			hashes[i] = Hash{byte(round), 6, 19: byte(i)}
		}
		const n = 12
		var stopPoison atomic.Bool
		poisoned := make(chan struct{})
		go func() { // earlier requests' leftovers
			defer close(poisoned)
			r := c.Rand("S06/poison")
			for !stopPoison.Load() {
				poisonPools(r)
				time.Sleep(200 * time.Microsecond)
			}
		}()
		if round%2 == 1 {
			stopPoison.Store(true)
		}
		c.workers(n, "mixed requests", func(k int) {
			r := c.Rand(fmt.Sprint("S06/", round, "/", k))
			src := []string{"127.0.0.1", fmt.Sprintf("127.%d.%d.%d", k+1, r.Intn(256), 1+r.Intn(250)), "::1"}[k%3]
			ip := netip.MustParseAddr(src)
			u, err := newUClient(src, s.udpPort)
			must(c, err, "client")
			must(c, u.connect(), "connect")
			defer u.close()
			hc := hclient{src, s.httpPort}
			type slot struct {
				id   PeerID
				port uint16
			}
			slots := map[int]*slot{} // torrent*4+i
			for j := 0; j < 150 && !c.TooMany(); j++ {
				t, i := r.Intn(nt), r.Intn(3)
				sl := slots[t*4+i]
				if sl == nil {
					sl = &slot{id: PeerID{byte(k), byte(t), byte(i), 0xab}}
					r.Read(sl.id[4:])
					slots[t*4+i] = sl
				}
				announce := func(ip netip.Addr, f func(port uint16)) {
					p := lg.add(t, ip, sl.id)
					if p == 0 {
						return
					}
					f(p)
					lg.ended(sl.port)
					sl.port = p
				}
				from := clock()
				bad := func(how string, ls []listed, err error) {
					if err == nil {
						if d := lg.judge(t, from, clock(), ls); d != "" {
							err = fmt.Errorf("%s", d)
						}
					}
					if err != nil {
						c.Violate(map[string]any{"round": round, "client": k, "source": src}, "%s: %v", how, err)
					}
					c.Count("listed_peers_judged", len(ls))
					c.Count("answers_judged", 1)
				}
				switch x := r.Intn(12); {
				case x < 3:
					announce(ip, func(p uint16) {
						a, err := u.announce(annc{Hash: hashes[t], ID: sl.id, Left: int64(r.Intn(2)), Port: p, NumWant: int32(1 + r.Intn(limit))})
						bad("UDP announce", a.Peers, err)
					})
				case x < 6:
					announce(ip, func(p uint16) {
						a, err := hc.announce(hannc{Hash: hashes[t], ID: sl.id, Port: fmt.Sprint(p), Left: fmt.Sprint(r.Intn(2)), Compact: r.Intn(2) == 0, NoID: r.Intn(2) == 0, NumWant: fmt.Sprint(r.Intn(limit + 1))})
						bad("HTTP announce", append(append(a.Peers, a.Compact4...), a.Compact6...), err)
						if a.Failure != "" {
							c.Violate(nil, "HTTP announce failed: %s", a.Failure)
						}
					})
				case x < 8:
					o := randIP(r)
					announce(o, func(p uint16) { db.Save(o, p, r.Intn(2) == 0, hashes[t], sl.id) })
				case x < 9:
					db.Drop(hashes[t], sl.id)
					lg.ended(sl.port)
					sl.port = 0
				case x < 10:
					a, b, err := compactLists(db, hashes[t], uint(limit))
					bad("compact list", append(a, b...), err)
				case x < 11:
					ls, err := peerList(db, hashes[t], 100, false)
					bad("list", ls, err)
				default: // other answers share buffers as well
					a, err := u.scrape(hashes[:1+r.Intn(nt)])
					if err == nil {
						for _, f := range a.Scrape {
							if f[0] < 0 || f[2] < 0 || f[0]+f[2] > n*3 {
								err = fmt.Errorf("scrape says %v", f)
							}
						}
					}
					if err == nil {
						var f map[Hash][2]int64
						f, err = hc.scrape(hashes[:1+t])
						if err == nil && len(f) != 1+t {
							err = fmt.Errorf("%d files for %d hashes", len(f), 1+t)
						}
					}
					if err != nil {
						c.Violate(nil, "scrape: %v", err)
					}
					if b, err := hc.raw([]byte("GET /scrape?info_hash=short HTTP/1.1\r\n\r\n")); err == nil {
						if _, fail, err := decodeHScrape(b); err != nil || fail == "" {
							c.Violate(nil, "failing scrape: %v %q", err, b)
						}
					}
				}
				if j%40 == 39 && k == 0 {
					db.Trim()
				}
			}
		})
		stopPoison.Store(true)
		<-poisoned
		c.Eval(fmt.Sprint("S06", round, limit, len(lg.recs)))
		if !race {
			s.stop()
		}
	}
}

// ---- S08

func monS08(c *Ctx) {
	n := 70000
	config.Config.DB.Backup.Path = scratch(c, "s08") + "/db"
	db := &gomap.Memory{}
	if err := db.Init(&gomap.FileBackup{}); err != nil {
		c.Violate(nil, "opening an empty database failed: %v", err)
		return
	}
	h, other := Hash{8}, Hash{9}
	ip := netip.MustParseAddr("10.1.2.3")
	id := func(i int) (p PeerID) { p[0], p[1], p[2] = byte(i), byte(i>>8), byte(i>>16); return }
	s := startServers(c, db, true, true)
	u, err := newUClient("127.0.0.1", s.udpPort)
	must(c, err, "client")
	must(c, u.connect(), "connect")
	hc := hclient{"127.0.0.1", s.httpPort}
	var seeds, leeches int64
	fast := isFast(c)
	check := func(what string, ips int) {
		c.Count("checkpoints", 1)
		c.Eval(fmt.Sprint(what, seeds, leeches))
		if a, b := counts(db, h); a != seeds || b != leeches {
			c.Violate(nil, "%s: counts %d/%d, want %d/%d", what, a, b, seeds, leeches)
		}
		if fast {
			return
		}
		if a, b := stats.Seeds.Load(), stats.Leeches.Load(); a != seeds || b != leeches {
			c.Violate(nil, "%s: totals %d/%d, want %d/%d", what, a, b, seeds, leeches)
		}
		if t := int(stats.IPStats.Total()); t != ips {
			c.Violate(nil, "%s: %d addresses, want %d", what, t, ips)
		}
	}
	network := func(what string) {
		a, err := u.scrape([]Hash{other, h})
		if err != nil || int64(a.Scrape[1][0]) != seeds || int64(a.Scrape[1][2]) != leeches {
			c.Violate(nil, "%s: UDP scrape %v %v, want %d/%d", what, a.Scrape, err, seeds, leeches)
		}
		f, err := hc.scrape([]Hash{h})
		if err != nil || f[h] != [2]int64{seeds, leeches} {
			c.Violate(nil, "%s: HTTP scrape %v %v, want %d/%d", what, f, err, seeds, leeches)
		}
	}
	marks := map[int]bool{1: true, 255: true, 256: true, 32766: true, 32767: true, 32768: true, 32769: true, 65535: true, 65536: true, 65537: true, n: true}
	for _, complete := range []bool{false, true} {
		role := map[bool]string{false: "leechers", true: "seeders"}[complete]
		for i := 1; i <= n; i++ {
			db.Save(ip, uint16(i), complete, h, id(i))
			if complete {
				seeds, leeches = seeds+1, leeches-1
			} else {
				leeches++
			}
			if marks[i] {
				check(fmt.Sprint(i, " ", role), 1)
			}
		}
		network(fmt.Sprint(n, " ", role))
		// an announcer sees the counts including itself
		a, err := u.announce(annc{Hash: h, ID: id(0xfffff1), Left: 1, Port: 5, NumWant: 10})
		if err != nil || int64(a.Seeders) != seeds || int64(a.Leechers) != leeches+1 || len(a.Peers) != 10 {
			c.Violate(nil, "UDP announce to %d %s: %d/%d, %d peers %v", n, role, a.Seeders, a.Leechers, len(a.Peers), err)
		}
		b, err := hc.announce(hannc{Hash: h, ID: id(0xfffff2), Left: "1", Port: "5", NumWant: "10"})
		if err != nil || b.Complete != seeds || b.Incompl != leeches+2 || len(b.Peers) != 10 {
			c.Violate(nil, "HTTP announce to %d %s: %d/%d, %d peers %v", n, role, b.Complete, b.Incompl, len(b.Peers), err)
		}
		db.Drop(h, id(0xfffff1))
		db.Drop(h, id(0xfffff2))
		check("after two announcers left", 1)
		// a backup keeps the counts
		if err := db.Backup().Save(); err != nil {
			c.Violate(nil, "saving %d peers failed: %v", n, err)
			continue
		}
		savedS, savedL := stats.Seeds.Load(), stats.Leeches.Load()
		db2 := &gomap.Memory{}
		if err := db2.Init(&gomap.FileBackup{}); err != nil {
			c.Violate(nil, "loading %d peers failed: %v", n, err)
			continue
		}
		if a, b := counts(db2, h); a != seeds || b != leeches {
			c.Violate(nil, "after a restart with %d %s: counts %d/%d, want %d/%d", n, role, a, b, seeds, leeches)
		}
		if a, b := stats.Seeds.Load(), stats.Leeches.Load(); a != seeds || b != leeches {
			c.Violate(nil, "after a restart with %d %s: totals %d/%d", n, role, a, b)
		}
		stats.Seeds.Store(savedS)
		stats.Leeches.Store(savedL)
		// the restored database counted the address of every peer again
		for i := 1; i <= n; i++ {
			db2.Drop(h, id(i))
		}
		if a, b := counts(db2, h); a != 0 || b != 0 {
			c.Violate(nil, "counts %d/%d after everyone left the restored torrent", a, b)
		}
		if !fast {
			if t := int(stats.IPStats.Total()); t != 1 {
				c.Violate(nil, "%d addresses after the restored peers left, want 1", t)
			}
		}
		stats.Seeds.Store(savedS)
		stats.Leeches.Store(savedL)
		c.Count("peers_restored", n)
	}
	// half move elsewhere and back, then everyone leaves
	for i := 1; i <= 40000; i++ {
		db.Save(netip.AddrFrom4([4]byte{11, 0, 0, 1}), uint16(i), true, h, id(i))
	}
	check("40000 moved", 2)
	for i := 1; i <= 40000; i++ {
		db.Save(ip, uint16(i), i%2 == 0, h, id(i))
		if i%2 == 1 {
			seeds, leeches = seeds-1, leeches+1
		}
	}
	check("and back", 1)
	for i := 1; i <= n; i++ {
		db.Drop(h, id(i))
		if i <= 40000 && i%2 == 1 {
			leeches--
		} else {
			seeds--
		}
		if marks[n-i] && n-i > 0 {
			check(fmt.Sprint(n-i, " left"), 1)
		}
	}
	check("everyone left", 0)
	network("everyone left")
	db.Trim()
	if db.Hashes() != 0 {
		c.Violate(nil, "%d torrents left", db.Hashes())
	}
	// many torrents and addresses
	for i := 0; i < 70000; i++ {
		db.Save(netip.AddrFrom4([4]byte{12, byte(i >> 16), byte(i >> 8), byte(i)}), 1, true, Hash{1, byte(i), byte(i >> 8), byte(i >> 16)}, id(i))
	}
	if db.Hashes() != 70000 {
		c.Violate(nil, "%d torrents, want 70000", db.Hashes())
	}
	if t := int(stats.IPStats.Total()); !fast && t != 70000 {
		c.Violate(nil, "%d addresses, want 70000", t)
	}
	for i := 0; i < 70000; i++ {
		db.Drop(Hash{1, byte(i), byte(i >> 8), byte(i >> 16)}, id(i))
	}
	s.stop()
	for round := 0; round < (c.Scale+1)/2 && !c.TooMany(); round++ {
		c.bubble(func() { s08random(c, round) })
	}
}

// s08random: a large torrent of both families, roles changing, shared
// addresses, a backup, a sweep over most of it and everyone leaving, all in
// random order
func s08random(c *Ctx, round int) {
	r := c.Rand(fmt.Sprint("S08/", round))
	config.Config.DB.Expiry = time.Hour
	config.Config.DB.Backup.Path = scratch(c, fmt.Sprint("s08r", round)) + "/db"
	db := &gomap.Memory{}
	must(c, db.Init(&gomap.FileBackup{}), "database")
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
	h := similarHashes(r, 1)[0]
	ips := make([]netip.Addr, 1+r.Intn(4))
	for i := range ips {
		ips[i] = randIP(r)
	}
	n := 65537 + r.Intn(20000)
	m := model{}
	id := func(i int) (p PeerID) { p[0], p[9], p[19] = byte(i), byte(i>>8), byte(i>>16); return }
	save := func(i int) {
		p := mpeer{Complete: r.Intn(4) != 0, IP: ips[r.Intn(len(ips))], Port: uint16(1 + r.Intn(65535)), Seen: time.Now().Unix()}
		db.Save(p.IP, p.Port, p.Complete, h, id(i))
		m.save(h, id(i), p)
	}
	check := func(what string, db *gomap.Memory) {
		c.Count("checkpoints", 1)
		c.Eval(fmt.Sprint(round, what, len(m[h])))
		d := checkTorrent(db, m, h)
		if d == "" {
			d = totalsProblem(c, m)
		}
		if d != "" {
			c.Violate(nil, "random swarm %d of %d peers on %d addresses, %s: %.300s", round, n, len(ips), what, d)
		}
	}
	for _, i := range r.Perm(n) {
		save(i)
	}
	check("filled", db)
	time.Sleep(time.Hour)
	for _, i := range r.Perm(n)[:r.Intn(n)] {
		if r.Intn(5) == 0 {
			db.Drop(h, id(i))
			m.drop(h, id(i))
		} else {
			save(i)
		}
	}
	check("changed", db)
	must(c, db.Backup().Save(), "save")
	dropAll(db, m)
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
	db = &gomap.Memory{}
	if err := db.Init(&gomap.FileBackup{}); err != nil {
		c.Violate(nil, "loading %d peers: %v", len(m[h]), err)
		return
	}
	check("restored", db)
	c.Count("peers_restored", len(m[h]))
	time.Sleep(time.Second)
	db.Trim()
	for id, p := range m[h] {
		if time.Now().Unix()-p.Seen > 3600 {
			delete(m[h], id)
		}
	}
	check("swept", db)
	for _, i := range r.Perm(n) {
		db.Drop(h, id(i))
		m.drop(h, id(i))
		if i%20011 == 0 {
			check("leaving", db)
		}
	}
	check("left", db)
}
