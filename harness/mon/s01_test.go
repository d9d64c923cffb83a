package mon

import (
	"fmt"
	"math/rand"
	"net/netip"

	"github.com/crimist/trakx/config"
)

func init() { register("S01", monS01) }

// similarHashes returns hashes built to collide under truncation or partial
// comparison: they differ in a single byte, in order, or are all zero.
func similarHashes(r *rand.Rand, n int) []Hash {
	var base Hash
	r.Read(base[:])
	out := []Hash{base, {}}
	for len(out) < n {
		h := base
		switch r.Intn(4) {
		case 0:
			h[r.Intn(20)] ^= 1 << r.Intn(8)
		case 1:
			h[19]++
			h[18] ^= byte(r.Intn(256))
		case 2:
			h[0] ^= byte(1 + r.Intn(255))
		case 3:
			r.Read(h[:])
		}
		dup := false
		for _, o := range out {
			dup = dup || o == h
		}
		if !dup {
			out = append(out, h)
		}
	}
	return out[:n]
}

func similarIDs(r *rand.Rand, n int) []PeerID {
	var out []PeerID
	for _, h := range similarHashes(r, n) {
		out = append(out, PeerID(h))
	}
	return out
}

func randIP(r *rand.Rand) netip.Addr {
	switch r.Intn(5) {
	case 0, 1:
		var b [16]byte
		r.Read(b[:])
		b[0] = 0x20
		return netip.AddrFrom16(b)
	default:
		var b [4]byte
		r.Read(b[:])
		return netip.AddrFrom4(b)
	}
}

// swarmOps drives announces over both transports and the database itself and
// keeps the model in step; every answer is checked against the model.
type swarmOps struct {
	c       *Ctx
	r       *rand.Rand
	s       *srv
	m       model
	hashes  []Hash
	ids     []PeerID
	uc      []*uclient
	hips    []string
	history []string
}

// someLeft is a number of bytes that are left, more than none.
func someLeft(r *rand.Rand) int64 {
	if r.Intn(3) == 0 {
		return []int64{1, 10, 100, 256, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1<<62 + 1<<40, 1<<63 - 1}[r.Intn(10)]
	}
	return 1 + r.Int63n(1<<40)
}

// otherEvent is neither a stop nor a completion.
func otherEvent(r *rand.Rand) uint32 {
	if r.Intn(2) == 0 {
		return []uint32{0, 2}[r.Intn(2)]
	}
	return []uint32{4, 5, 7, 8, 9, 11, 0x101, 0x103, 0x10003, 0x10001, 0x3000000, 0x1000000, 0x80000003, 0xffffffff, 0xfffffffd}[r.Intn(15)]
}

// scrapeOne compares the scrape of a single torrent over one transport with the model.
func (o *swarmOps) scrapeOne(h Hash) string {
	ws, wl := o.m.counts(h)
	o.c.Count("single_scrapes", 1)
	if o.r.Intn(2) == 0 {
		a, err := o.uc[o.r.Intn(len(o.uc))].scrape([]Hash{h})
		if err != nil {
			return "UDP scrape: " + err.Error()
		}
		if int64(a.Scrape[0][0]) != ws || int64(a.Scrape[0][2]) != wl {
			return fmt.Sprintf("UDP scrape of one says %v for %x, want %d/%d", a.Scrape[0], h, ws, wl)
		}
		return ""
	}
	hf, err := hclient{"", o.s.httpPort}.scrape([]Hash{h})
	if err != nil {
		return "HTTP scrape: " + err.Error()
	}
	if f, ok := hf[h]; !ok || f != [2]int64{ws, wl} {
		return fmt.Sprintf("HTTP scrape of one says %v for %x, want %d/%d", f, h, ws, wl)
	}
	return ""
}

func (o *swarmOps) step() (h Hash, problem string) {
	c, r := o.c, o.r
	h = o.hashes[r.Intn(len(o.hashes))]
	if r.Intn(3) == 0 {
		if problem = o.scrapeOne(h); problem != "" {
			return h, problem
		}
	}
	id := o.ids[r.Intn(len(o.ids))]
	port := uint16(1 + r.Intn(65535))
	if r.Intn(6) == 0 {
		port = []uint16{1, 255, 256, 65535, 0x3a3a}[r.Intn(5)]
	}
	stop := r.Intn(4) == 0
	complete := r.Intn(2) == 0
	switch k := r.Intn(10); {
	case k < 4: // UDP
		u := o.uc[r.Intn(len(o.uc))]
		a := annc{Hash: h, ID: id, Left: someLeft(r), Event: otherEvent(r), NumWant: -1, Port: port, IP: r.Uint32(), Key: r.Uint32(), Up: r.Int63(), Down: r.Int63()}
		if r.Intn(8) == 0 { // as a signed number less than none; -1 is sent by clients that do not know
			a.Left = []int64{-1, -1 << 63, -1 << 32, -5}[r.Intn(4)]
		}
		if complete {
			if r.Intn(2) == 0 {
				a.Left = 0
			} else {
				a.Event = 1
			}
		}
		if stop {
			a.Event = 3
			if r.Intn(2) == 0 {
				a.Left = 0
			}
		}
		o.history = append(o.history, fmt.Sprintf("udp %v hash %x.. id %x.. port %d left %d event %d", u.addr, h[16:], id[16:], port, a.Left, a.Event))
		ans, err := u.announce(a)
		if err != nil {
			return h, "UDP announce: " + err.Error()
		}
		c.Count("udp_announces", 1)
		if stop {
			o.m.drop(h, id)
			if len(ans.Peers) > 0 {
				return h, "UDP stop answered with peers"
			}
			return h, ""
		}
		o.m.save(h, id, mpeer{Complete: complete, IP: u.addr.Addr(), Port: port})
		ws, wl := o.m.counts(h)
		if int64(ans.Seeders) != ws || int64(ans.Leechers) != wl {
			return h, fmt.Sprintf("UDP answer says %d/%d, want %d/%d", ans.Seeders, ans.Leechers, ws, wl)
		}
		if d := subMultiset(ans.Peers, o.m[h]); d != "" {
			return h, "UDP answer: " + d
		}
	case k < 8: // HTTP
		hc := hclient{o.hips[r.Intn(len(o.hips))], o.s.httpPort}
		a := hannc{Hash: h, ID: id, Port: fmt.Sprint(port), Left: []string{"", "", "", "0"}[r.Intn(4)] + fmt.Sprint(someLeft(r)), Event: []string{"", "started", "", "paused", "stop", "complete", "stoppedx", "xstopped", "completedx"}[r.Intn(9)], Compact: r.Intn(2) == 0, NoID: r.Intn(3) == 0}
		if r.Intn(8) == 0 {
			a.Left = []string{"", " "}[r.Intn(2)] // absent or without a value
		}
		if complete {
			if r.Intn(2) == 0 {
				a.Left = "0"
			} else {
				a.Event = "completed"
			}
		}
		if stop {
			a.Event = "stopped"
			if r.Intn(2) == 0 {
				a.Left = "0"
			}
		}
		o.history = append(o.history, fmt.Sprintf("http %s %s", hc.ip, a.query()))
		ans, err := hc.announce(a)
		if err != nil {
			return h, "HTTP announce: " + err.Error()
		}
		if ans.Failure != "" {
			return h, "HTTP announce failed: " + ans.Failure
		}
		c.Count("http_announces", 1)
		if stop {
			o.m.drop(h, id)
			if len(ans.Body) > 0 {
				return h, "HTTP stop answered with a body"
			}
			return h, ""
		}
		ip := netip.MustParseAddr(hc.host())
		if hc.ip != "" {
			ip = recorded(hc.ip)
		}
		o.m.save(h, id, mpeer{Complete: complete, IP: ip, Port: port})
		ws, wl := o.m.counts(h)
		if ans.Complete != ws || ans.Incompl != wl {
			return h, fmt.Sprintf("HTTP answer says %d/%d, want %d/%d", ans.Complete, ans.Incompl, ws, wl)
		}
		if d := subMultiset(append(append(ans.Peers, ans.Compact4...), ans.Compact6...), o.m[h]); d != "" {
			return h, "HTTP answer: " + d
		}
	default: // any address, straight into the database
		if stop {
			o.history = append(o.history, fmt.Sprintf("drop hash %x.. id %x..", h[16:], id[16:]))
			o.s.db.Drop(h, id)
			o.m.drop(h, id)
		} else {
			ip := randIP(r)
			o.history = append(o.history, fmt.Sprintf("save %v:%d %v hash %x.. id %x..", ip, port, complete, h[16:], id[16:]))
			o.s.db.Save(ip, port, complete, h, id)
			o.m.save(h, id, mpeer{Complete: complete, IP: ip, Port: port})
		}
		c.Count("direct_operations", 1)
	}
	return h, ""
}

// scrapes compares the scrape answers of both transports with the model.
func (o *swarmOps) scrapes() string {
	u := o.uc[o.r.Intn(len(o.uc))]
	ua, err := u.scrape(o.hashes)
	if err != nil {
		return "UDP scrape: " + err.Error()
	}
	for i, h := range o.hashes {
		ws, wl := o.m.counts(h)
		if int64(ua.Scrape[i][0]) != ws || int64(ua.Scrape[i][2]) != wl {
			return fmt.Sprintf("UDP scrape says %v for %x, want %d/%d", ua.Scrape[i], h, ws, wl)
		}
	}
	hf, err := hclient{"", o.s.httpPort}.scrape(o.hashes)
	if err != nil {
		return "HTTP scrape: " + err.Error()
	}
	for _, h := range o.hashes {
		ws, wl := o.m.counts(h)
		if f, ok := hf[h]; !ok || f != [2]int64{ws, wl} {
			return fmt.Sprintf("HTTP scrape says %v for %x, want %d/%d", f, h, ws, wl)
		}
	}
	o.c.Count("scrapes", 2)
	return ""
}

func (o *swarmOps) checkAll() string {
	for _, h := range o.hashes {
		if d := checkTorrent(o.s.db, o.m, h); d != "" {
			return fmt.Sprintf("torrent %x: %s", h, d)
		}
		o.c.Count("torrent_comparisons", 1)
	}
	return ""
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func monS01(c *Ctx) {
	config.Config.Numwant.Limit = 200
	for seq := 0; seq < 40*c.Scale && !c.TooMany(); seq++ {
		r := c.Rand(fmt.Sprint("S01/", seq))
		if seq%10 == 0 {
			// a fresh tracker now and then, also with several workers
			config.Config.HTTP.Threads = 1 + r.Intn(3)
			config.Config.UDP.Threads = 1 + r.Intn(3)
			s01srv = startServers(c, newDB(c), true, true)
			s01clients = nil
			s01srcs = some(r, 5, sources()) // of other classes
			for _, ip := range append([]string{"127.0.0.1", "127.0.0.1", "127.9.8.7", "127.255.255.254", "::1"}, s01srcs...) {
				u, err := newUClient(ip, s01srv.udpPort)
				must(c, err, "client")
				must(c, u.connect(), "connect")
				s01clients = append(s01clients, u)
			}
		}
		o := &swarmOps{c: c, r: r, s: s01srv, m: model{}, uc: s01clients,
			hips:   append([]string{"127.0.0.1", "127.1.2.3", "127.200.0.10", "::1"}, s01srcs...),
			hashes: similarHashes(r, 2+r.Intn(4)), ids: similarIDs(r, 2+r.Intn(8))}
		// the all-zero hash recurs in every sequence of one tracker: start clean
		for _, h := range o.hashes {
			for _, id := range o.ids {
				s01srv.db.Drop(h, id)
			}
			if got, err := peerList(s01srv.db, h, 1000, false); err == nil {
				for _, l := range got {
					var id PeerID
					copy(id[:], l.ID)
					s01srv.db.Drop(h, id)
				}
			}
		}
		problem := ""
		n := 40 + r.Intn(120)
		for i := 0; i < n && problem == ""; i++ {
			var h Hash
			if h, problem = o.step(); problem != "" {
				break
			}
			if r.Intn(3) == 0 {
				if problem = o.scrapeOne(h); problem != "" {
					break
				}
			}
			if d := checkTorrent(o.s.db, o.m, h); d != "" {
				problem = fmt.Sprintf("torrent %x: %s", h, d)
			}
			c.Count("torrent_comparisons", 1)
			if problem == "" && i%25 == 24 {
				problem = o.scrapes()
			}
			if problem == "" && i%15 == 14 {
				problem = o.checkAll()
			}
			c.Count("operations", 1)
		}
		if problem == "" {
			if problem = o.scrapes(); problem == "" {
				problem = o.checkAll()
			}
		}
		key := ""
		for _, h := range o.history {
			key += h
		}
		c.Eval(key)
		if seq < 2 {
			c.Sample(tail(o.history, 6))
		}
		if problem != "" {
			c.Violate(map[string]any{"sequence": seq, "history_tail": tail(o.history, 200)}, "%s", problem)
			s01srv.stop()
			s01srv = startServers(c, newDB(c), true, true)
			for _, u := range s01clients {
				u.close()
			}
			s01clients = nil
			for _, ip := range []string{"127.0.0.1", "::1"} {
				u, err := newUClient(ip, s01srv.udpPort)
				must(c, err, "client")
				must(c, u.connect(), "connect")
				s01clients = append(s01clients, u)
			}
		}
	}
}

var (
	s01srv     *srv
	s01clients []*uclient
	s01srcs    []string
)
