package mon

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
)

func init() {
	register("A01", monA01)
	register("R01", monR01)
	register("H01", monH01)
	register("H02", monH02)
	register("H03", monH03)
	register("H04", monH04)
	register("H05", monH05)
	register("H06", monH06)
}

// ---- A01

func monA01(c *Ctx) {
	type cf struct {
		base, fuzz     time.Duration
		udpIP, httpIP  string
		clients        []string
		udpThr, httpTh int
	}
	all := []string{"127.0.0.1", "127.44.3.2", "::1"}
	every := append([]string{"127.0.0.1", "::1"}, some(c.Rand("A01"), 12, sources())...)
	for round, f := range []cf{
		{1800 * time.Second, 600 * time.Second, "", "", every, 1, 1},
		{60 * time.Second, 0, "127.0.0.1", "127.0.0.1", all[:2], 2, 2},
		{1 * time.Second, 1 * time.Second, "::1", "::1", all[2:], 1, 1},
		{90*time.Second + 500*time.Millisecond, 300 * time.Millisecond, "0.0.0.0", "0.0.0.0", all[:2], 1, 1},
		{7 * time.Second, 3 * time.Second, "::", "::", every, 2, 3},
	} {
		config.Config.Announce.Base, config.Config.Announce.Fuzz = f.base, f.fuzz
		config.Config.UDP.IP, config.Config.HTTP.IP = f.udpIP, f.httpIP
		config.Config.UDP.Threads, config.Config.HTTP.Threads = f.udpThr, f.httpTh
		a01round(c, round, f.clients, f.base, f.fuzz)
	}
	config.Config.UDP.IP, config.Config.HTTP.IP = "", ""
}

// startServersAny is startServers for trackers bound to one address.
func startServersAny(c *Ctx, db storage.Database, clients []string) *srv {
	v6only := true
	for _, x := range clients {
		v6only = v6only && strings.Contains(x, ":")
	}
	if !v6only {
		return startServers(c, db, true, true)
	}
	s := &srv{c: c, db: db, serveErr: make(chan error, 2)}
	s.udpPort, s.httpPort = freePort(c), freePort(c)
	config.Config.UDP.Port, config.Config.HTTP.Port = s.udpPort, s.httpPort
	s.udp, s.http = newUDPTracker(db), newHTTPTracker(db)
	go func() { s.serveErr <- s.udp.Serve() }()
	go func() { s.serveErr <- s.http.Serve() }()
	for i := 0; i < 400; i++ {
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("[::1]:%d", s.httpPort), time.Second)
		if err == nil {
			conn.Close()
			u, err := newUClient("::1", s.udpPort)
			must(c, err, "client")
			u.conn.Write(heartbeatReq)
			_, err = u.recv(100 * time.Millisecond)
			u.close()
			if err == nil {
				return s
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.Inconclusive("trackers on ::1 do not come up")
	return nil
}

func a01round(c *Ctx, round int, ips []string, base, fuzz time.Duration) {
	r := c.Rand(fmt.Sprint("A01/", round))
	limit := 50
	config.Config.Numwant.Default, config.Config.Numwant.Limit = 50, 50
	initPools(limit)
	s := startServersAny(c, newDB(c), ips)
	m := model{}
	us := map[string]*uclient{}
	for _, ip := range ips {
		u, err := newUClient(ip, s.udpPort)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		us[ip] = u
	}
	lo, hi := int64(base/time.Second), int64((base+fuzz)/time.Second)
	hashes := similarHashes(r, 6)
	var spread [2]int64
	spread[0] = 1 << 60
	var hist []string
	for i := 0; i < 250*c.Scale && !c.TooMany(); i++ {
		h, ip := hashes[r.Intn(len(hashes))], ips[r.Intn(len(ips))]
		if r.Intn(4) == 0 { // others, of both families
			p := mpeer{Complete: r.Intn(2) == 0, IP: randIP(r), Port: uint16(1 + r.Intn(65535))}
			id := PeerID{9, byte(r.Intn(40))}
			s.db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
			continue
		}
		id := PeerID{1, byte(r.Intn(6))}
		r.Read(id[10:12]) // mostly a new peer
		if r.Intn(2) == 0 {
			id[10], id[11] = 0, 0
		}
		me := mpeer{Complete: r.Intn(2) == 0, IP: recorded(ip), Port: uint16(1 + r.Intn(65535))}
		stop := r.Intn(4) == 0
		want := []int{-1, 1, 3, 50, 10}[r.Intn(5)]
		eff := want
		if want < 0 {
			eff = 50
		}
		bad := func(f string, a ...any) {
			c.Violate(map[string]any{"round": round, "history": tail(hist, 30)}, f, a...)
		}
		interval := func(v int64) {
			spread[0], spread[1] = min(spread[0], v), max(spread[1], v)
			if v < lo || v > hi {
				bad("interval %d, base %v, fuzz %v", v, base, fuzz)
			}
		}
		if r.Intn(2) == 0 {
			a := annc{Hash: h, ID: id, Left: 1, Event: otherEvent(r), NumWant: int32(want), Port: me.Port, IP: r.Uint32()}
			if me.Complete {
				if r.Intn(2) == 0 {
					a.Left = 0
				} else {
					a.Event = 1
				}
			}
			if stop {
				a.Event = 3
			}
			hist = append(hist, fmt.Sprintf("udp %s %+v", ip, a))
			ans, err := us[ip].announce(a)
			if err != nil {
				bad("UDP announce: %v", err)
				return
			}
			if stop {
				m.drop(h, id)
				if len(ans.Peers) > 0 {
					bad("a UDP stop is answered with %d peers", len(ans.Peers))
				}
			} else {
				m.save(h, id, me)
				interval(int64(ans.Interval))
				if ws, wl := m.counts(h); int64(ans.Seeders) != ws || int64(ans.Leechers) != wl {
					bad("UDP answer says %d/%d, want %d/%d", ans.Seeders, ans.Leechers, ws, wl)
				}
				n4, n6 := families(m[h])
				n := n4
				if me.IP.Is6() {
					n = n6
				}
				if len(ans.Peers) != min(n, eff) {
					bad("UDP answer to %s lists %d peers, %d of its family are members, %d wanted", ip, len(ans.Peers), n, eff)
				}
				for _, l := range ans.Peers {
					if l.IP.Is4() != me.IP.Is4() {
						bad("UDP answer to %s lists %v", ip, l)
					}
				}
				if d := subMultiset(ans.Peers, m[h]); d != "" {
					bad("UDP answer: %s", d)
				}
			}
		} else {
			a := hannc{Hash: h, ID: id, Port: fmt.Sprint(me.Port), Left: "1", Event: []string{"", "started", "paused"}[r.Intn(3)], Compact: r.Intn(2) == 0, NoID: r.Intn(2) == 0}
			if want >= 0 {
				a.NumWant = fmt.Sprint(want)
			}
			if me.Complete {
				if r.Intn(2) == 0 {
					a.Left = "0"
				} else {
					a.Event = "completed"
				}
			}
			if stop {
				a.Event = "stopped"
				a.Port = []string{"", "0", "99999", "x", a.Port}[r.Intn(5)]
			}
			extra := []string{"", "&ip=9.9.9.9", "&ipv4=9.9.9.9&ipv6=2001::1", "&trackerid=5&key=abc&supportcrypto=1"}[r.Intn(4)]
			hist = append(hist, fmt.Sprintf("http %s %s", ip, a.query()+extra))
			raw, err := hclient{ip, s.httpPort}.raw([]byte("GET /announce?" + a.query() + extra + " HTTP/1.1\r\nHost: t\r\nX-Forwarded-For: 8.8.8.8\r\n\r\n"))
			if err != nil {
				bad("HTTP announce: %v", err)
				return
			}
			ans, err := decodeHAnnounce(raw)
			if err != nil || ans.Failure != "" {
				bad("HTTP announce answered with %.200q: %v", raw, err)
				continue
			}
			if stop {
				m.drop(h, id)
				if len(ans.Body) > 0 {
					bad("an HTTP stop is answered with %.100q", ans.Body)
				}
			} else {
				m.save(h, id, me)
				interval(ans.Interval)
				if ws, wl := m.counts(h); ans.Complete != ws || ans.Incompl != wl {
					bad("HTTP answer says %d/%d, want %d/%d", ans.Complete, ans.Incompl, ws, wl)
				}
				if a.Compact == ans.IsList {
					bad("compact=%v is answered with list=%v", a.Compact, ans.IsList)
				}
				n4, n6 := families(m[h])
				if a.Compact && (len(ans.Compact4) != min(n4, eff) || len(ans.Compact6) != min(n6, eff)) {
					bad("compact answer has %d+%d peers, members %d+%d, %d wanted", len(ans.Compact4), len(ans.Compact6), n4, n6, eff)
				}
				if !a.Compact && len(ans.Peers) != min(n4+n6, eff) {
					bad("answer has %d peers, members %d, %d wanted", len(ans.Peers), n4+n6, eff)
				}
				for _, l := range ans.Peers {
					if (l.ID == "") != a.NoID {
						bad("no_peer_id=%v but id given=%v", a.NoID, l.ID != "")
						break
					}
				}
				if d := subMultiset(append(append(ans.Peers, ans.Compact4...), ans.Compact6...), m[h]); d != "" {
					bad("HTTP answer: %s", d)
				}
			}
		}
		// recorded under the source address, IPv4 in its 4-byte form
		if d := checkTorrent(s.db, m, h); d != "" {
			bad("%s", d)
		}
		c.Count("announces", 1)
		c.Eval(hist[len(hist)-1])
	}
	if fuzz >= time.Second {
		// spread over the range, not all in a part of it
		if n := len(hist); n > 300 && fuzz >= 8*time.Second && (spread[0] > lo+(hi-lo)/4 || spread[1] < hi-(hi-lo)/4) {
			c.Violate(nil, "%d intervals are all in %d..%d, base %v, fuzz %v", n, spread[0], spread[1], base, fuzz)
		}
		c.Count("max_interval_spread_s", int(spread[1]-spread[0]))
	}
	if round == 0 {
		c.Sample(tail(hist, 4))
	}
	s.stop()
}

// ---- R01

func monR01(c *Ctx) {
	config.Config.HTTP.Threads = 1
	config.Config.UDP.Threads = 1
	db := newDB(c)
	s := startServers(c, db, true, true)
	r := c.Rand("R01")
	u, err := newUClient("127.0.0.1", s.udpPort)
	must(c, err, "client")
	must(c, u.connect(), "connect")
	hc := hclient{"127.0.0.1", s.httpPort}
	// torrents with members that rejected requests name
	m := model{}
	hashes := similarHashes(r, 4)
	ids := similarIDs(r, 5)
	for _, h := range hashes[:3] {
		for i, id := range ids[:4] {
			p := mpeer{Complete: i%2 == 0, IP: randIP(r), Port: uint16(1 + r.Intn(65535))}
			db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
		}
	}
	torrents := db.Hashes()
	unchanged := func(what string, detail any) {
		for _, h := range hashes {
			if d := checkTorrent(db, m, h); d != "" {
				c.Violate(detail, "%s changed a torrent: %s", what, d)
			}
		}
		if n := db.Hashes(); n != torrents {
			c.Violate(detail, "%s changed the number of torrents from %d to %d", what, torrents, n)
			torrents = n
		}
		if d := totalsProblem(c, m); d != "" {
			c.Violate(detail, "%s: %s", what, d)
		}
	}
	valid := func(what string) {
		h, id := hashes[r.Intn(3)], ids[r.Intn(4)]
		p := mpeer{IP: netip.MustParseAddr("127.0.0.1"), Port: uint16(1 + r.Intn(65535)), Complete: r.Intn(2) == 0}
		left := map[bool]string{true: "0", false: "7"}[p.Complete]
		want := []string{"", "", "0", "5", "007", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807"}[r.Intn(10)]
		a, err := hc.announce(hannc{Hash: h, ID: id, Port: fmt.Sprint(p.Port), Left: left, NumWant: want})
		m.save(h, id, p)
		if ws, wl := m.counts(h); err != nil || a.Failure != "" || a.Complete != ws || a.Incompl != wl {
			c.Violate(nil, "after %s a valid announce (numwant %q) is answered with %d/%d, want %d/%d, %q %v", what, want, a.Complete, a.Incompl, ws, wl, a.Failure, err)
		}
	}
	badPorts := []string{"", "0", "-1", "-80", "65536", "65537", "70000", "131152", "99999999999999999999", "abc", "1.5", "80x", "x80", "1e3", "0x50", "4294967376", "18446744073709551696", "-65456", "٣"}
	badWants := []string{"-1", "-100", "abc", "1.5", "5x", "x5", "1e2", "0x10", "-9223372036854775808", "null"}
	short := func(b []byte, n int) []byte {
		for len(b) < n {
			b = append(b, byte('a'+r.Intn(26)))
		}
		return b[:n]
	}
	for i := 0; i < 700*c.Scale && !c.TooMany(); i++ {
		h, id := hashes[r.Intn(len(hashes))], ids[r.Intn(len(ids))]
		event := []string{"", "started", "completed", "stopped"}[r.Intn(4)]
		hs, ps := h[:], id[:]
		q := map[string]string{"port": "6881", "left": "1", "compact": "1"}
		kind := ""
		lens := []int{0, 1, 10, 18, 19, 21, 22, 39, 40, 41, 60}
		switch x := r.Intn(6); {
		case x == 0:
			n := lens[r.Intn(len(lens))]
			hs, kind = short(bytes.Clone(hs), n), fmt.Sprintf("hash of %d bytes", n)
		case x == 1:
			n := lens[r.Intn(len(lens))]
			ps, kind = short(bytes.Clone(ps), n), fmt.Sprintf("peer id of %d bytes", n)
		case x == 2:
			q["port"] = badPorts[r.Intn(len(badPorts))]
			kind = "port " + q["port"]
			if event == "stopped" {
				event = "completed"
			}
		case x == 3:
			q["numwant"] = badWants[r.Intn(len(badWants))]
			kind = "numwant " + q["numwant"]
			if event == "stopped" {
				event = "started"
			}
		case x == 4:
			kind = []string{"no info_hash", "no peer_id", "no port"}[r.Intn(3)]
			if event == "stopped" && kind == "no port" {
				event = ""
			}
		default:
			u := i % 5
			r01scrapeOrUDP(c, r, s, &u, hc, hashes, ids, unchanged)
			valid("a rejected scrape or UDP request")
			continue
		}
		if event != "" {
			q["event"] = event
		}
		var parts []string
		if kind != "no info_hash" {
			parts = append(parts, "info_hash="+esc(hs))
		}
		if kind != "no peer_id" {
			parts = append(parts, "peer_id="+esc(ps))
		}
		for k, v := range q {
			if kind == "no port" && k == "port" {
				continue
			}
			parts = append(parts, k+"="+v)
		}
		sort.Strings(parts)
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		req := "GET /announce?" + strings.Join(parts, "&") + " HTTP/1.1\r\nHost: t\r\n\r\n"
		what := fmt.Sprintf("an announce with %s, event %q", kind, event)
		before := stats.ClientErrors.Load()
		raw, err := hc.raw([]byte(req))
		c.Count("rejected_http_announces", 1)
		c.Eval(kind + event)
		a, derr := decodeHAnnounce(raw)
		if err != nil || derr != nil || a.Failure == "" {
			c.Violate(req, "%s is answered with %.200q %v %v", what, raw, err, derr)
		}
		if n := stats.ClientErrors.Load() - before; n != 1 {
			c.Violate(req, "%s counts as %d client errors", what, n)
		}
		unchanged(what, req)
		valid(what)
	}
	s.stop()
	// rejections of concurrent clients are counted one by one
	config.Config.HTTP.Threads, config.Config.UDP.Threads = 6, 4
	s = startServers(c, db, true, true)
	before := stats.ClientErrors.Load()
	n := 40 * c.Scale
	c.workers(8, "rejected requests", func(k int) {
		u, err := newUClient("127.0.0.1", s.udpPort)
		must(c, err, "client")
		defer u.close()
		must(c, u.connect(), "connect")
		for i := 0; i < n; i++ {
			if k%2 == 0 {
				a, err := hclient{"", s.httpPort}.announce(hannc{Hash: hashes[0], ID: ids[0], Port: "0", Event: "completed"})
				if err != nil || a.Failure == "" {
					c.Violate(nil, "rejected announce answered with %.100q %v", a.Body, err)
				}
			} else {
				raw, err := u.rpc(pkAnnounce(u.cid, 5, annc{Hash: hashes[0], ID: ids[0], Event: 1}))
				if err != nil || raw[3] != 3 {
					c.Violate(nil, "UDP announce with port 0 answered with %x %v", raw, err)
				}
			}
		}
	})
	if got := stats.ClientErrors.Load() - before; got != int64(8*n) {
		c.Violate(nil, "%d rejected requests count as %d client errors", 8*n, got)
	}
	unchanged("concurrent rejected requests", nil)
	s.stop()
}

func r01scrapeOrUDP(c *Ctx, r *rand.Rand, s *srv, mode *int, hc hclient, hashes []Hash, ids []PeerID, unchanged func(string, any)) {
	before := stats.ClientErrors.Load()
	if r.Intn(2) == 0 {
		var q []string
		kind := ""
		switch r.Intn(4) {
		case 0:
			kind = "no hash"
			q = [][]string{nil, {"foo=bar"}, {"info_has=" + esc(hashes[0][:])}, {"peer_id=" + esc(hashes[0][:])}, {"trackerid=" + esc(hashes[0][:])}, {"Info_Hash=" + esc(hashes[0][:]), "info_hast=" + esc(hashes[1][:])}}[r.Intn(6)]
		default:
			n := []int{0, 1, 19, 21, 40}[r.Intn(5)]
			kind = fmt.Sprintf("a hash of %d bytes", n)
			b := make([]byte, n)
			r.Read(b)
			for i := r.Intn(3); i > 0; i-- {
				q = append(q, "info_hash="+esc(hashes[r.Intn(4)][:]))
			}
			q = append(q, "info_hash="+esc(b))
			for i := r.Intn(3); i > 0; i-- {
				q = append(q, "info_hash="+esc(hashes[r.Intn(4)][:]))
			}
		}
		req := "GET /scrape?" + strings.Join(q, "&") + " HTTP/1.1\r\n\r\n"
		raw, err := hc.raw([]byte(req))
		_, fail, derr := decodeHScrape(raw)
		if err != nil || derr != nil || fail == "" {
			c.Violate(req, "a scrape with %s is answered with %.200q %v %v", kind, raw, err, derr)
		}
		c.Count("rejected_scrapes", 1)
		c.Eval("scrape " + req)
		if n := stats.ClientErrors.Load() - before; n != 1 {
			c.Violate(req, "a scrape with %s counts as %d client errors", kind, n)
		}
		unchanged("a scrape with "+kind, req)
		return
	}
	u, err := newUClient([]string{"127.0.0.1", "::1"}[r.Intn(2)], s.udpPort)
	must(c, err, "client")
	defer u.close()
	must(c, u.connect(), "connect")
	a := annc{Hash: hashes[r.Intn(4)], ID: ids[r.Intn(5)], Port: 6881, Left: int64(r.Intn(2)), Event: uint32(r.Intn(4)), NumWant: 20}
	kind, n, cid := "", 98, u.cid
	switch r.Intn(3) {
	case 0:
		a.Port, kind = 0, "port 0"
		n += r.Intn(3) * 10
	case 1:
		n = []int{16, 17, 36, 50, 90, 96, 97}[r.Intn(7)]
		kind = fmt.Sprint(n, " bytes")
	default:
		cid, kind = cid^(1<<r.Intn(63)), "a bad id"
	}
	b := append(pkAnnounce(cid, 99, a), make([]byte, 20)...)[:n]
	out, err := u.fence(b)
	if err != nil || len(out) != 1 || len(out[0]) < 9 || out[0][3] != 3 || out[0][7] != 99 {
		c.Violate(hx(b), "a UDP announce with %s is answered with %x %v", kind, out, err)
	}
	c.Count("rejected_udp_announces", 1)
	c.Eval("udp " + kind + fmt.Sprint(a.Event, n))
	if n := stats.ClientErrors.Load() - before; n != 1 {
		c.Violate(hx(b), "a UDP announce with %s counts as %d client errors", kind, n)
	}
	unchanged("a UDP announce with "+kind, hx(b))
}

// ---- H01

// canonical makes answers comparable: peers are listed in any order.
func canonical(b []byte) string {
	a, err := decodeHAnnounce(b)
	if err == nil && a.Failure == "" && len(a.Body) > 0 {
		var s []string
		for _, l := range append(append(a.Peers, a.Compact4...), a.Compact6...) {
			s = append(s, l.String())
		}
		sort.Strings(s)
		return fmt.Sprintf("announce %d %d %d %v %v", a.Interval, a.Complete, a.Incompl, a.IsList, s)
	}
	if f, fail, err := decodeHScrape(b); err == nil && fail == "" {
		var s []string
		for h, n := range f {
			s = append(s, fmt.Sprintf("%x=%v", h, n))
		}
		sort.Strings(s)
		return "scrape " + strings.Join(s, " ")
	}
	return string(b)
}

func stateOf(db storage.Database, hashes []Hash) string {
	var out []string
	for _, h := range hashes {
		ls, err := peerList(db, h, 1000, false)
		var s []string
		for _, l := range ls {
			s = append(s, l.String())
		}
		sort.Strings(s)
		a, b := counts(db, h)
		out = append(out, fmt.Sprintf("%x: %d/%d %v %v", h[:2], a, b, s, err))
	}
	out = append(out, fmt.Sprint(db.Hashes(), " torrents"))
	return strings.Join(out, "\n")
}

func monH01(c *Ctx) {
	config.Config.HTTP.Threads = 1 // every request reaches the same worker
	config.Config.Announce.Fuzz = 0
	config.Config.HTTP.Timeout.Read = 20 * time.Second
	dbA, dbB := newDB(c), newDB(c)
	sa := startServers(c, dbA, false, true)
	hashes := []Hash{}
	for i := 0; i < 4; i++ {
		h := Hash{}
		for j := range h {
			h[j] = byte('A' + 5*i + j%5)
		}
		hashes = append(hashes, h)
	}
	hashes = append(hashes, Hash{})
	dirty := hclient{"127.0.0.1", sa.httpPort}
	fresh := func(req []byte) ([]byte, error) {
		sb := startServers(c, dbB, false, true)
		b, err := hclient{"127.0.0.1", sb.httpPort}.raw(req)
		sb.stop()
		return b, err
	}
	r := c.Rand("H01")
	var log []string
	// both sends a request to the used and (as other) to a fresh tracker
	both := func(req, other []byte, what string) bool {
		log = append(log, fmt.Sprintf("%s: %q", what, req))
		a, errA := dirty.raw(req)
		b, errB := fresh(other)
		if errA != nil || errB != nil {
			if errA != nil && errB != nil {
				return true
			}
			c.Violate(tail(log, 4), "%s: %v from a used tracker, %v from a fresh one", what, errA, errB)
			return false
		}
		if x, y := canonical(a), canonical(b); x != y {
			c.Violate(tail(log, 4), "%s: a used tracker answers %.300q, a fresh one %.300q", what, x, y)
			return false
		}
		if x, y := stateOf(dbA, hashes), stateOf(dbB, hashes); x != y {
			c.Violate(map[string]any{"requests": tail(log, 4), "used": x, "fresh": y}, "%s: the swarms differ after a used and a fresh tracker", what)
			return false
		}
		return true
	}
	raw := func(h []byte) string { // unescaped, all letters
		return string(h)
	}
	mk := func() string {
		h, id := hashes[r.Intn(4)], fmt.Sprintf("-XX0001-%012d", r.Intn(3))
		hdr := []string{"", "Host: t\r\n", "Host: tracker.example.org\r\nUser-Agent: client/1.2 (info_hash=zz) /announce?x=1\r\n"}[r.Intn(3)]
		port := 1 + r.Intn(65535)
		switch r.Intn(8) {
		case 0:
			return "GET /scrape?info_hash=" + raw(h[:]) + "&info_hash=" + esc(hashes[r.Intn(4)][:]) + " HTTP/1.1\r\n" + hdr + "\r\n"
		case 1:
			return "GET " + []string{"/", "/dmca.html", "/nothing", "/heartbeat"}[r.Intn(4)] + " HTTP/1.1\r\n" + hdr + "\r\n"
		case 2:
			return fmt.Sprintf("GET /announce?info_hash=%s&peer_id=%s&event=stopped HTTP/1.1\r\n%s\r\n", esc(h[:]), id, hdr)
		case 3:
			return fmt.Sprintf("GET /announce?peer_id=%s&port=%d&compact=1&left=%d&numwant=50&info_hash=%s HTTP/1.1\r\n%s\r\n", id, port, r.Intn(2), raw(h[:]), hdr)
		default:
			return fmt.Sprintf("GET /announce?info_hash=%s&peer_id=%s&port=%d&left=%d&event=%s&numwant=%d HTTP/1.1\r\n%s\r\n", raw(h[:]), id, port, r.Intn(2), []string{"", "started", "completed"}[r.Intn(3)], 40+r.Intn(20), hdr)
		}
	}
	n := 0
	for i := 0; i < 350*c.Scale && !c.TooMany(); i++ {
		req := mk()
		// what came before: something similar, something long, or leftovers of the kinds a parser looks for
		var prev string
		switch r.Intn(6) {
		case 0, 1:
			prev = mk()
		case 2: // the same request with another port and hash
			prev = strings.Replace(req, "port=", "port=9", 1)
		case 3:
			prev = "GET /announce?" + strings.Repeat(fmt.Sprintf("&info_hash=%s&port=7&peer_id=-YY0001-000000000000", raw(hashes[r.Intn(4)][:])), 20) + " HTTP/1.1\r\n\r\n"
		case 4:
			prev = "GET /" + strings.Repeat(" HTTP/1.1\r\n&port=77?", 120)
		default:
			prev = base64.StdEncoding.EncodeToString([]byte(mk() + strings.Repeat("z", r.Intn(900))))
		}
		if !both([]byte(prev), []byte(prev), "earlier request") {
			continue
		}
		kind := ""
		cut := req
		switch r.Intn(8) {
		case 0, 1:
			k := r.Intn(len(req))
			cut, kind = req[:k], "cut off"
		case 2:
			k := strings.Index(req, " HTTP/")
			cut, kind = req[:k+r.Intn(7)], "cut off at the end of the target"
		case 3:
			k := strings.IndexAny(req, "?&=%")
			if k < 0 {
				k = 5
			}
			cut, kind = req[:k+r.Intn(3)], "cut off at a parameter"
		case 4:
			k := r.Intn(len(req))
			cut, kind = req[:k]+req[min(len(req), k+1+r.Intn(30)):], "with a hole"
		case 5:
			cut, kind = req, "complete"
		case 6:
			cut, kind = strings.Replace(req, "HTTP/1.1\r\n", "HTTP/1.0\r\nX-Forwarded-For: 5.5.5.5\r\n", 1), "with a header"
		default:
			cut, kind = strings.Replace(req, "GET", []string{"POST", "HEAD", "G", "get", "GETGET"}[r.Intn(5)], 1), "with another method"
		}
		if len(cut) == 0 {
			cut = "G"
		}
		if both([]byte(cut), []byte(cut), "request "+kind) {
			n++
		}
		c.Eval(prev + "\x00" + cut)
		c.Count("requests_compared", 1)
		// base64 of a request is that request
		if r.Intn(2) == 0 && len(req) < 1900 {
			x := req
			if r.Intn(3) == 0 {
				x = req[:5+r.Intn(len(req)-5)]
			}
			both([]byte(base64.StdEncoding.EncodeToString([]byte(x))), []byte(x), "request in base64")
			c.Count("base64_requests_compared", 1)
			c.Eval("b64" + x)
		}
	}
	c.Sample(tail(log, 4))
	sa.stop()
}

// ---- H02

func monH02(c *Ctx) {
	config.Config.HTTP.Threads = 2
	config.Config.HTTP.Timeout.Read = 30 * time.Second
	config.Config.HTTP.Timeout.Write = 30 * time.Second
	s := startServers(c, newDB(c), false, true)
	h02fuzz(c, s)
	s.stop()
	h02slow(c)
}

// exchange sends b cut into pieces, ends the sending side, and reads everything.
func exchange(port int, b []byte, cuts int, closeWrite bool, r *rand.Rand) ([]byte, error) {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	for cuts > 0 && len(b) > 1 {
		k := 1 + r.Intn(len(b)-1)
		if _, err := conn.Write(b[:k]); err != nil {
			break
		}
		b = b[k:]
		cuts--
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	}
	conn.Write(b) // may fail: the tracker answers after the first piece
	if closeWrite {
		conn.(*net.TCPConn).CloseWrite()
	}
	out, err := io.ReadAll(conn)
	if errors.Is(err, errReset) {
		err = nil
	}
	return out, err
}

func h02fuzz(c *Ctx, s *srv) {
	r := c.Rand("H02")
	valid := func() string {
		h := Hash{byte(r.Intn(256)), 2}
		switch r.Intn(5) {
		case 0:
			return "GET /scrape?info_hash=" + esc(h[:]) + " HTTP/1.1\r\nHost: a\r\n\r\n"
		case 1:
			return "GET /stats HTTP/1.1\r\n\r\n"
		case 2:
			return "GET /index.html?x=%20y HTTP/1.1\r\n\r\n"
		default:
			return "GET /announce?" + hannc{Hash: h, ID: PeerID{1}, Port: "80", Left: "0", Compact: true}.query() + " HTTP/1.1\r\nX-Forwarded-For: 1.2.3.4, 5.6.7.8\r\n\r\n"
		}
	}
	frags := []string{"GET ", "GET /", " /", " HTTP/", " HTTP/1.1\r\n", "?", "&", "=", "%", "%2", "%zz", "%%", "/announce", "/scrape", "/stats", "info_hash=", "peer_id=", "port=", "R0VU", "R0VUIC8", "\r\n\r\n", "\r\n", "\x00", "\xff", "X-Forwarded-For: ", "event=stopped", "&&&&", "numwant=99999999999"}
	for i := 0; i < 1500*c.Scale && !c.TooMany(); i++ {
		var b []byte
		kind, want := "", "" // want: exact status
		switch r.Intn(9) {
		case 0:
			b = make([]byte, 1+r.Intn([]int{10, 200, 2600, 6000, 70000}[r.Intn(5)]))
			r.Read(b)
			kind = "random bytes"
			if !bytes.HasPrefix(b, []byte("GET ")) && !bytes.HasPrefix(b, []byte("R0VU")) {
				want = "400"
			}
		case 1: // fragments
			for k := 1 + r.Intn(12); k > 0; k-- {
				b = append(b, frags[r.Intn(len(frags))]...)
			}
			kind = "fragments"
		case 2:
			v := valid()
			b, kind = []byte(v[:1+r.Intn(len(v))]), "truncated"
			if !bytes.Contains(b, []byte(" HTTP/")) {
				want = "400"
			}
		case 3:
			b, kind = []byte(valid()), "mutated"
			for k := 1 + r.Intn(5); k > 0; k-- {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 4:
			v := valid()
			b, kind = []byte(v[:r.Intn(len(v))]+frags[r.Intn(len(frags))]+v[r.Intn(len(v)):]), "spliced"
		case 5:
			p := make([]byte, 1+r.Intn(30))
			for k := range p {
				p[k] = "abcdefghijklmnopqrstuvwxyz0123456789./-_~"[r.Intn(41)]
			}
			b, kind, want = []byte("GET /no"+string(p)+[]string{"", "?a=b", "?"}[r.Intn(3)]+" HTTP/1.1\r\n\r\n"), "unknown path", "404"
		case 6:
			m := []string{"POST", "HEAD", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "get", "Get", "GETX", "XGET", "GE", ""}[r.Intn(14)]
			b, kind, want = []byte(strings.Replace(valid(), "GET", m, 1)), "method "+m, "400"
		case 7:
			b, kind = []byte(valid()+strings.Repeat("A: b\r\n", r.Intn(2000))), "long"
		default:
			// many parameters, some of them long
			q := ""
			for k := r.Intn(120); k >= 0; k-- {
				q += []string{"&", "a", "=", "&info_hash=x", "&port=1", "%41", "&" + strings.Repeat("k", r.Intn(60))}[r.Intn(7)]
			}
			b, kind = []byte("GET "+[]string{"/announce", "/scrape", "/", ""}[r.Intn(4)]+"?"+q+" HTTP/1.1\r\n\r\n"), "many parameters"
		}
		cuts := 0
		if r.Intn(4) == 0 {
			cuts, want = 1+r.Intn(3), ""
		}
		if len(b) > 2600 {
			want = "" // what is read first decides
			if kind == "random bytes" {
				want = "400"
			}
		}
		out, err := exchange(s.httpPort, b, cuts, r.Intn(3) == 0, r)
		c.Count("connections", 1)
		c.Eval(kind + fmt.Sprint(len(b), cuts) + string(b[:min(len(b), 60)]))
		detail := map[string]any{"request": fmt.Sprintf("%.600q", b), "pieces": cuts + 1, "answer": fmt.Sprintf("%.300q", out)}
		if err != nil {
			c.Violate(detail, "%s: the connection ends with %v", kind, err)
			continue
		}
		if n := bytes.Count(out, []byte("HTTP/1.1 ")); n > 1 || (len(out) > 0 && !bytes.HasPrefix(out, []byte("HTTP/1.1 "))) {
			c.Violate(detail, "%s: %d responses on one connection", kind, n)
			continue
		}
		if len(out) == 0 {
			// nothing may be lost but to a reset because of unread input
			if cuts == 0 && len(b) < 2600 {
				c.Violate(detail, "%s: no answer", kind)
			}
			continue
		}
		st, _, err := splitHTTP(out)
		c.Count("status_"+st, 1)
		if err != nil || (st != "200" && st != "400" && st != "404" && st != "500") || (want != "" && st != want) {
			c.Violate(detail, "%s: status %q, want %q %v", kind, st, want, err)
		}
		if i%20 == 0 {
			if a, err := (hclient{"", s.httpPort}).announce(hannc{Hash: Hash{1}, ID: PeerID{2}, Port: "5", Left: "1"}); err != nil || a.Failure != "" {
				c.Violate(detail, "after %s a valid announce gets %q %v", kind, a.Failure, err)
			}
		}
	}
	// clients that go away at any time
	for i := 0; i < 150*c.Scale; i++ {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.httpPort))
		if err != nil {
			c.Violate(nil, "connecting: %v", err)
			break
		}
		t := conn.(*net.TCPConn)
		if r.Intn(2) == 0 {
			t.SetLinger(0)
		}
		v := []byte(valid())
		conn.Write(v[:r.Intn(len(v)+1)])
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
		}
		conn.Close()
		c.Count("vanished_clients", 1)
	}
	for i := 0; i < 10; i++ {
		if a, err := (hclient{"", s.httpPort}).announce(hannc{Hash: Hash{1}, ID: PeerID{2}, Port: "5", Left: "1"}); err != nil || a.Failure != "" {
			c.Violate(nil, "after vanished clients a valid announce gets %q %v", a.Failure, err)
		}
	}
}

// h02slow holds the only worker with clients that send or read nothing.
func h02slow(c *Ctx) {
	config.Config.HTTP.Threads = 1
	// each of the two limits its own direction: the other one is far too long
	config.Config.HTTP.Timeout.Read = 2 * time.Second
	config.Config.HTTP.Timeout.Write = 80 * time.Second
	config.Config.Numwant.Limit = 120000
	initPools(120000)
	db := newDB(c)
	h := Hash{0x42}
	for i := 0; i < 120000; i++ {
		db.Save(netip.AddrFrom16([16]byte{0x20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, byte(i >> 16), byte(i >> 8), byte(i), 1}), 65535, true, h, PeerID{byte(i), byte(i >> 8), byte(i >> 16)})
	}
	s := startServers(c, db, false, true)
	next := func(what string, since time.Time) {
		a, err := hclient{"", s.httpPort}.announce(hannc{Hash: Hash{1}, ID: PeerID{2}, Port: "5", Left: "1"})
		if err != nil || a.Failure != "" {
			c.Violate(nil, "%s: the next client gets %q %v after %v", what, a.Failure, err, time.Since(since))
		}
		if took := time.Since(since); took > 40*time.Second {
			c.Violate(nil, "%s: the next client waits for %v, the time-out is 2 s", what, took)
		}
		c.Count("clients_served_after_slow_ones", 1)
		c.Eval(what)
	}
	// the same for a few kinds of silence, one after the other on one worker
	for _, first := range []string{"", "G", "GET /announce?info_hash="} {
		start := time.Now()
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.httpPort))
		must(c, err, "dial")
		conn.Write([]byte(first))
		go func() {
			time.Sleep(50 * time.Second) // keeps the connection open
			conn.Close()
		}()
		next(fmt.Sprintf("a client sent only %q", first), start)
		conn.SetReadDeadline(time.Now().Add(30 * time.Second))
		if _, err := io.ReadAll(conn); errors.Is(err, os.ErrDeadlineExceeded) {
			c.Violate(nil, "a client that sent only %q is not disconnected", first)
		}
	}
	// a slow but timely client is served
	start := time.Now()
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.httpPort))
	must(c, err, "dial")
	time.Sleep(300 * time.Millisecond)
	conn.Write([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"))
	took := time.Since(start)
	conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	if b, err := io.ReadAll(conn); took < time.Second && (err != nil || !bytes.HasPrefix(b, []byte("HTTP/1.1 200"))) {
		c.Violate(nil, "a client that waited %v is answered with %q %v", took, b, err)
	}
	conn.Close()
	s.stop()
	// a client that asks for megabytes and reads nothing
	config.Config.HTTP.Timeout.Read = 80 * time.Second
	config.Config.HTTP.Timeout.Write = 2 * time.Second
	s = startServers(c, db, false, true)
	start = time.Now()
	d := net.Dialer{Control: smallReceiveBuffer}
	conn, err = d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.httpPort))
	must(c, err, "dial")
	conn.Write([]byte("GET /announce?" + hannc{Hash: h, ID: PeerID{0xff, 0xff, 0xff}, Port: "5", Left: "1", NumWant: "120000"}.query() + " HTTP/1.1\r\n\r\n"))
	next("a client reads nothing", start)
	c.Count("max_wait_behind_a_deaf_client_ms", int(time.Since(start)/time.Millisecond))
	conn.Close()
	// the same answer reaches a client that reads
	b, err := hclient{"", s.httpPort}.raw([]byte("GET /announce?" + hannc{Hash: h, ID: PeerID{0xff, 0xff, 0xff}, Port: "5", Left: "1", NumWant: "120000"}.query() + " HTTP/1.1\r\n\r\n"))
	a, derr := decodeHAnnounce(b)
	if err == nil && (derr != nil || len(a.Peers) != 120000) {
		c.Violate(nil, "an answer with 120000 peers: %d arrive, %v", len(a.Peers), derr)
	}
	s.stop()
}

// ---- H03

// escMix encodes b with a mixture of raw characters and escapes.
func escMix(r *rand.Rand, b []byte) string {
	var s strings.Builder
	for _, x := range b {
		special := strings.IndexByte("%& #\r\n\t", x) >= 0 || x < 0x20 || x == 0x7f
		switch {
		case !special && r.Intn(2) == 0:
			s.WriteByte(x)
		default:
			h := fmt.Sprintf("%02x", x)
			up := []byte(h)
			for k := range up {
				if up[k] >= 'a' && r.Intn(2) == 0 {
					up[k] -= 32
				}
			}
			s.WriteString("%" + string(up))
		}
	}
	return s.String()
}

func hostileBytes(r *rand.Rand, b []byte) {
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			const odd = "%&=? +#/\r\n\x00\xff0aAfF%2"
			b[i] = odd[r.Intn(len(odd))]
		}
	case 2:
		x := byte(r.Intn(256))
		for i := range b {
			b[i] = x + byte(i)*byte(r.Intn(2))
		}
	default:
		copy(b, "%41&port=1?x= HTTP/1.1")
		b[r.Intn(len(b))] = byte(r.Intn(256))
	}
}

func monH03(c *Ctx) {
	config.Config.HTTP.Threads = 2
	db := newDB(c)
	s := startServers(c, db, false, true)
	r := c.Rand("H03")
	hc := hclient{"127.0.0.1", s.httpPort}
	here := netip.MustParseAddr("127.0.0.1")
	fillers := []string{"", "", "foo=bar", "foo", "=", "=x", "a==b", "key=1234", "ip=1.2.3.4", "supportcrypto=1", "x=%26y", "info_hashx=1", "inf=1", "info_hash_=2", "Info_Hash=zz", "PORT=1", "port2=7", "peer_idx=5", "trackerid=%00", "corrupt=0"}
	for i := 0; i < 700*c.Scale && !c.TooMany(); i++ {
		var h Hash
		var id PeerID
		hostileBytes(r, h[:])
		hostileBytes(r, id[:])
		want := mpeer{IP: here, Port: uint16(1 + r.Intn(65535))}
		port := fmt.Sprint(want.Port)
		ps := []string{"info_hash=" + escMix(r, h[:]), "peer_id=" + escMix(r, id[:]), "port=" + escMix(r, []byte(port))}
		compact, noid := false, false
		switch r.Intn(4) {
		case 0:
			ps, want.Complete = append(ps, "left="+escMix(r, []byte("0"))), true
		case 1:
			ps, want.Complete = append(ps, "event="+escMix(r, []byte("completed")), "left=9"), true
		case 2:
			ps = append(ps, "left=9", "event=")
		}
		switch r.Intn(4) {
		case 0:
			ps, compact = append(ps, "compact"), true
		case 1:
			ps, compact = append(ps, "compact=1"), true
		case 2:
			ps = append(ps, "compact=0")
		}
		switch r.Intn(4) {
		case 0:
			ps, noid = append(ps, "no_peer_id"), true
		case 1:
			ps, noid = append(ps, "no_peer_id=1"), true
		case 2:
			ps = append(ps, "no_peer_id=0")
		}
		if r.Intn(3) == 0 {
			ps = append(ps, "numwant=30")
		}
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		dup := ""
		if r.Intn(3) == 0 { // an earlier value that must lose
			k := r.Intn(len(ps))
			name, _, _ := strings.Cut(ps[k], "=")
			old := map[string]string{"info_hash": "info_hash=" + esc(bytes.Repeat([]byte{7}, 20)), "peer_id": "peer_id=short", "port": "port=99999", "left": "left=" + map[bool]string{true: "5", false: "0"}[want.Complete],
				"event": "event=stopped", "compact": map[bool]string{true: "compact=0", false: "compact"}[compact], "no_peer_id": "no_peer_id=0", "numwant": "numwant=x"}[name]
			if name == "left" && !strings.HasSuffix(ps[k], "0") && want.Complete {
				old = "left=0" // completed by its event anyway
			}
			at := r.Intn(k + 1)
			ps = append(ps[:at:at], append([]string{old}, ps[at:]...)...)
			dup = name
		}
		total := len(ps)
		switch r.Intn(4) {
		case 0:
			total = 45 // as many as are supported
		case 1:
			total += r.Intn(45 - len(ps) + 1)
		}
		for len(ps) < total {
			k := r.Intn(len(ps) + 1)
			f := fillers[r.Intn(len(fillers))]
			ps = append(ps[:k:k], append([]string{f}, ps[k:]...)...)
		}
		req := "GET /announce?" + strings.Join(ps, "&") + " HTTP/1.1\r\nHost: t\r\n\r\n"
		if len(req) > 2500 {
			continue
		}
		raw, err := hc.raw([]byte(req))
		a, derr := decodeHAnnounce(raw)
		c.Count("announces", 1)
		c.Max("max_parameters", len(ps))
		c.Eval(req)
		if err != nil || derr != nil || a.Failure != "" || len(a.Body) == 0 {
			c.Violate(req, "%d parameters, duplicate %q: answered with %.200q %v %v", len(ps), dup, raw, err, derr)
			continue
		}
		m := model{}
		m.save(h, id, want)
		if d := checkTorrent(db, m, h); d != "" {
			c.Violate(req, "hash %x, id %x, duplicate %q: %s", h, id, dup, d)
		}
		if a.IsList == compact {
			c.Violate(req, "compact=%v, duplicate %q: answered with a list %v", compact, dup, a.IsList)
		}
		for _, l := range a.Peers {
			if (l.ID == "") != noid {
				c.Violate(req, "no_peer_id=%v, duplicate %q: id given %v", noid, dup, l.ID != "")
			}
		}
		if n := db.Hashes(); n != 1 {
			c.Violate(req, "%d torrents after one announce", n)
		}
		// scrapes name the same torrent whatever the encoding
		qs := []string{"info_hash=" + escMix(r, h[:])}
		hs := []Hash{h}
		for k := r.Intn(40); k > 0; k-- {
			var o Hash
			hostileBytes(r, o[:])
			q := "info_hash=" + escMix(r, o[:])
			if len(strings.Join(qs, "&"))+len(q) > 2500 {
				break
			}
			qs, hs = append(qs, q), append(hs, o)
		}
		if i%10 == 0 { // the documented 40 in the longest form
			qs, hs = nil, nil
			for k := 0; k < 40; k++ {
				o := h
				o[5] = byte(k)
				if k == 39 {
					o = h
				}
				var q strings.Builder
				for _, x := range o[:] {
					if strings.IndexByte("%& #\r\n\t", x) >= 0 || x < 0x20 || x == 0x7f {
						fmt.Fprintf(&q, "%%%02X", x)
					} else {
						q.WriteByte(x)
					}
				}
				qs, hs = append(qs, "info_hash="+q.String()), append(hs, o)
			}
			for len(strings.Join(qs, "&")) > 2550 {
				qs, hs = qs[1:], hs[1:]
			}
		}
		// parameters of other names, some with values a hash could have
		for k := r.Intn(4); k > 0 && len(qs) < 42; k-- {
			var o Hash
			hostileBytes(r, o[:])
			f := []string{"trackerid=", "peer_id=", "Info_Hash=", "info_hash_=", "info_hast=", "xinfo_hash=", "compact=", "info_hash", "passkey="}[r.Intn(9)]
			if r.Intn(4) > 0 && strings.HasSuffix(f, "=") {
				f += escMix(r, o[:])
			} else if r.Intn(2) == 0 {
				f = fillers[r.Intn(len(fillers))]
			}
			if len(strings.Join(qs, "&"))+len(f) > 2550 {
				break
			}
			at := r.Intn(len(qs) + 1)
			qs = append(qs[:at:at], append([]string{f}, qs[at:]...)...)
			c.Count("other_parameters_in_scrapes", 1)
		}
		req = "GET /scrape?" + strings.Join(qs, "&") + " HTTP/1.1\r\n\r\n"
		raw, err = hc.raw([]byte(req))
		f, fail, derr := decodeHScrape(raw)
		c.Max("max_scraped_hashes", len(hs))
		uniq := map[Hash]bool{}
		for _, o := range hs {
			uniq[o] = true
		}
		if err != nil || derr != nil || fail != "" || len(f) != len(uniq) {
			c.Violate(req, "scrape of %d hashes: %d files, %q %v %v", len(hs), len(f), fail, err, derr)
		} else {
			for o := range uniq {
				ws, wl := m.counts(o)
				if f[o] != [2]int64{ws, wl} {
					c.Violate(req, "scrape says %v for %x, want %d/%d", f[o], o, ws, wl)
				}
			}
		}
		// a stop with the same names removes exactly that peer
		stop := []string{"event=stopped", "info_hash=" + escMix(r, h[:]), "peer_id=" + escMix(r, id[:])}
		r.Shuffle(3, func(i, j int) { stop[i], stop[j] = stop[j], stop[i] })
		if raw, err := hc.raw([]byte("GET /announce?" + strings.Join(stop, "&") + " HTTP/1.1\r\n\r\n")); err != nil || !bytes.HasPrefix(raw, []byte("HTTP/1.1 200")) {
			c.Violate(stop, "stop answered with %q %v", raw, err)
		}
		if a, b := counts(db, h); a+b != 0 {
			c.Violate(stop, "a stop left %d/%d", a, b)
		}
		db.Trim()
		// a truncated escape is rejected
		bad := []string{"info_hash=" + esc(h[:]), "peer_id=" + esc(id[:]), "port=80"}
		k := r.Intn(3)
		bad[k] += []string{"%", "%4", "%f"}[r.Intn(3)]
		if r.Intn(3) == 0 {
			bad = append(bad, []string{"foo=%", "%", "x%2"}[r.Intn(3)])
		}
		r.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
		raw, err = hc.raw([]byte("GET /announce?" + strings.Join(bad, "&") + " HTTP/1.1\r\n\r\n"))
		st, body, _ := splitHTTP(raw)
		if rejected := st == "400" || bytes.Contains(body, []byte("failure reason")); err != nil || !rejected {
			c.Violate(bad, "a truncated escape is answered with %.200q %v", raw, err)
		}
		if n := db.Hashes(); n != 0 {
			c.Violate(bad, "a request with a truncated escape changed the swarm")
			db.Trim()
		}
	}
	s.stop()
}

// ---- H04

func monH04(c *Ctx) {
	race := strings.Contains(c.Variant, "race")
	if !race {
		h04sizes(c)
	}
	config.Config.HTTP.Threads = 8
	config.Config.UDP.Threads = 2
	config.Config.Announce.Fuzz = 0
	db := newDB(c)
	s := startServers(c, db, true, true)
	// torrents that do not change while many clients ask
	r := c.Rand("H04/c")
	hashes := similarHashes(r, 12)
	m := model{}
	for i, h := range hashes {
		for k := 0; k < i*3; k++ {
			p := mpeer{Complete: r.Intn(2) == 0, IP: randIP(r), Port: uint16(1 + r.Intn(65535))}
			id := PeerID{byte(k)}
			r.Read(id[1:])
			db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
		}
	}
	c.workers(12, "concurrent answers", func(k int) {
		r := c.Rand(fmt.Sprint("H04/c", k))
		hc := hclient{"", s.httpPort}
		u, err := newUClient("127.0.0.1", s.udpPort)
		must(c, err, "client")
		defer u.close()
		must(c, u.connect(), "connect")
		own := Hash{byte(k), 0xee}
		for i := 0; i < 60*c.Scale && !c.TooMany(); i++ {
			switch r.Intn(4) {
			case 0:
				a, err := hc.announce(hannc{Hash: own, ID: PeerID{byte(k)}, Port: fmt.Sprint(1 + i), Left: "0", Compact: r.Intn(2) == 0})
				if err != nil || a.Failure != "" || a.Complete != 1 || a.Incompl != 0 || len(a.Peers)+len(a.Compact4) != 1 {
					c.Violate(nil, "announce to an own torrent: %+v %v", a, err)
				}
			case 1:
				a, err := hc.announce(hannc{Hash: own, ID: PeerID{byte(k)}, Port: "0"})
				if err != nil || a.Failure == "" {
					c.Violate(nil, "failing announce: %q %v", a.Body, err)
				}
			default:
				q := make([]Hash, 1+r.Intn(12))
				uniq := map[Hash]bool{}
				for j := range q {
					q[j] = hashes[r.Intn(len(hashes))]
					uniq[q[j]] = true
				}
				f, err := hc.scrape(q)
				if err != nil || len(f) != len(uniq) {
					c.Violate(nil, "scrape: %d files for %d hashes %v", len(f), len(uniq), err)
					continue
				}
				ua, err := u.scrape(q)
				if err != nil {
					c.Violate(nil, "UDP scrape: %v", err)
					continue
				}
				for j, h := range q {
					ws, wl := m.counts(h)
					if f[h] != [2]int64{ws, wl} || int64(ua.Scrape[j][0]) != ws || int64(ua.Scrape[j][2]) != wl {
						c.Violate(nil, "HTTP scrape says %v, UDP scrape %v, want %d/%d", f[h], ua.Scrape[j], ws, wl)
					}
				}
			}
			c.Count("concurrent_answers_decoded", 1)
		}
		c.Eval(fmt.Sprint("concurrent", k))
	})
	s.stop()
}

func h04sizes(c *Ctx) {
	r := c.Rand("H04")
	config.Config.Numwant.Limit = 3000
	config.Config.Numwant.Default = 75
	initPools(3000)
	config.Config.HTTP.Threads = 1
	config.Config.UDP.Threads = 1
	db := newDB(c)
	s := startServers(c, db, true, true)
	hc := hclient{"127.0.0.1", s.httpPort}
	u, err := newUClient("127.0.0.1", s.udpPort)
	must(c, err, "client")
	must(c, u.connect(), "connect")
	m := model{}
	var hashes []Hash
	for i, n := range []int{0, 1, 2, 9, 10, 11, 74, 99, 100, 101, 166, 167, 999, 1000, 3000} {
		h := Hash{byte(i)}
		r.Read(h[1:])
		hashes = append(hashes, h)
		for k := 0; k < n; k++ {
			p := mpeer{Complete: r.Intn(3) == 0, IP: randIP(r), Port: uint16(1 + r.Intn(65535))}
			if r.Intn(6) == 0 {
				p.Port = []uint16{1, 9, 10, 99, 100, 65535}[r.Intn(6)]
			}
			if r.Intn(6) == 0 {
				p.IP = mustAddr([]string{"1.1.1.1", "255.255.255.255", "2001::", "2001:db8:1111:2222:3333:4444:5555:6666"}[r.Intn(4)])
			}
			var id PeerID
			hostileBytes(r, id[:])
			id[0], id[1] = byte(k), byte(k>>8)
			db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
		}
	}
	// bencoded dictionaries have each key once, sorted
	keys := func(input any, body []byte) {
		v, _ := bdecodeAll(body)
		if p := keysProblem(v); p != "" {
			c.Violate(input, "keys are not sorted: %s", p)
		}
		c.Count("answers_with_sorted_keys", 1)
	}
	announceKeys := func(input any, ans hansw) {
		v, _ := bdecodeAll(ans.Body)
		d := v.(*bdict)
		unsorted := func(d *bdict, listed ...string) {
			if p := keysProblem(d); p == "" {
			} else if s := strings.Join(d.Keys, ","); slices.Contains(listed, s) {
				c.Known("keys-of-announce-answers-unsorted", "the keys of an answer are not sorted: %s in %.200q", p, ans.Body)
			} else {
				c.Violate(input, "the keys of an announce answer: %s", p)
			}
		}
		p, _ := d.Get("peers")
		if l, ok := p.([]any); ok {
			for i, e := range l {
				if s, ok := e.(string); ok {
					c.Known("peers-are-strings", "the entries of a peer list are no dictionaries but strings: %.200q", ans.Body)
					e, _ = bdecodeAll([]byte(s))
				}
				unsorted(e.(*bdict), "peer id,ip,port")
				l[i] = nil
			}
		}
		unsorted(d, "interval,complete,incomplete,peers", "interval,complete,incomplete,peers,peers6")
		c.Count("announce_answers_with_keys_judged", 1)
	}
	self := PeerID{0xff, 0xff, 1}
	for i := 0; i < 20*c.Scale && !c.TooMany(); i++ {
		for _, h := range hashes {
			want := []int{0, 1, 5, 75, 3000, r.Intn(3000)}[r.Intn(6)]
			a := hannc{Hash: h, ID: self, Port: fmt.Sprint(1 + r.Intn(65535)), Left: "1", Compact: r.Intn(2) == 0, NoID: r.Intn(2) == 0, NumWant: fmt.Sprint(want)}
			p, _ := strconv.Atoi(a.Port)
			m.save(h, self, mpeer{IP: mustAddr("127.0.0.1"), Port: uint16(p)})
			ans, err := hc.announce(a)
			ws, wl := m.counts(h)
			n4, n6 := families(m[h])
			c.Count("announce_answers_decoded", 1)
			c.Eval(fmt.Sprint(len(m[h]), want, a.Compact, a.NoID))
			switch {
			case err != nil || ans.Failure != "":
				c.Violate(a.query(), "announce to %d peers, %d wanted, compact %v: %v %s", len(m[h]), want, a.Compact, err, ans.Failure)
				continue
			case ans.Complete != ws || ans.Incompl != wl:
				c.Violate(a.query(), "announce says %d/%d, want %d/%d", ans.Complete, ans.Incompl, ws, wl)
			case a.Compact && (len(ans.Compact4) != min(n4, want) || len(ans.Compact6) != min(n6, want)):
				c.Violate(a.query(), "%d+%d compact peers of %d+%d, %d wanted", len(ans.Compact4), len(ans.Compact6), n4, n6, want)
			case !a.Compact && len(ans.Peers) != min(n4+n6, want):
				c.Violate(a.query(), "%d peers of %d, %d wanted", len(ans.Peers), n4+n6, want)
			}
			if d := subMultiset(append(append(ans.Peers, ans.Compact4...), ans.Compact6...), m[h]); d != "" {
				c.Violate(a.query(), "%s", d)
			}
			announceKeys(a.query(), ans)
		}
		// scrapes of 1 to 40 hashes, known and not
		for n := 1; n <= 40; n++ {
			q := make([]Hash, n)
			uniq := map[Hash]bool{}
			size := 0
			for j := range q {
				q[j] = hashes[r.Intn(len(hashes))]
				if r.Intn(3) == 0 {
					hostileBytes(r, q[j][:])
				}
				uniq[q[j]] = true
				size += len(q[j])*3 + 11
			}
			if size > 2500 { // the long encoding does not fit into a request
				q = q[:2500/71]
				uniq = map[Hash]bool{}
				for _, h := range q {
					uniq[h] = true
				}
			}
			raw, err := hc.rawScrape(q)
			f, fail, derr := decodeHScrape(raw)
			c.Count("scrape_answers_decoded", 1)
			if err != nil || derr != nil || fail != "" || len(f) != len(uniq) {
				c.Violate(nil, "scrape of %d hashes: %d files %v %v %s", len(q), len(f), err, derr, fail)
				continue
			}
			_, body, _ := splitHTTP(raw)
			keys(nil, body)
			ua, err := u.scrape(q)
			if err != nil {
				c.Violate(nil, "UDP scrape: %v", err)
				continue
			}
			for j, h := range q {
				ws, wl := m.counts(h)
				if g, ok := f[h]; !ok || g != [2]int64{ws, wl} || int64(ua.Scrape[j][0]) != ws || int64(ua.Scrape[j][2]) != wl {
					c.Violate(nil, "HTTP scrape says %v, UDP scrape %v, want %d/%d", f[h], ua.Scrape[j], ws, wl)
				}
			}
		}
		// failures
		for _, q := range []string{"/announce", "/announce?", "/announce?info_hash=x", "/scrape", "/scrape?info_hash=" + strings.Repeat("x", 21), "/announce?" + hannc{Hash: hashes[0], ID: self, Port: "x"}.query()} {
			raw, err := hc.raw([]byte("GET " + q + " HTTP/1.1\r\n\r\n"))
			a, derr := decodeHAnnounce(raw)
			if err != nil || derr != nil || a.Failure == "" {
				c.Violate(q, "failing request answered with %.100q %v %v", raw, err, derr)
			} else if v, _ := bdecodeAll(a.Body); len(v.(*bdict).Keys) != 1 {
				c.Violate(q, "a failure answer has the keys %q", v.(*bdict).Keys)
			}
			c.Count("failure_answers_decoded", 1)
		}
		// an acknowledged stop has an empty body
		raw, err := hc.raw([]byte("GET /announce?" + hannc{Hash: hashes[1], ID: self, Port: "1", Event: "stopped"}.query() + " HTTP/1.1\r\n\r\n"))
		if st, body, derr := splitHTTP(raw); err != nil || derr != nil || st != "200" || len(body) != 0 {
			c.Violate(nil, "a stop is answered with %q %v", raw, err)
		}
		m.drop(hashes[1], self)
	}
	s.stop()
}

// ---- H05

func monH05(c *Ctx) {
	heroku := strings.Contains(c.Variant, "heroku")
	config.Config.HTTP.Threads = 1
	db := newDB(c)
	s := startServers(c, db, false, true)
	r := c.Rand("H05")
	ipText := func() (string, netip.Addr) {
		a := randIP(r)
		if r.Intn(6) == 0 {
			a = mustAddr([]string{"::1", "2001:db8::1", "1.2.3.4", "255.255.255.255", "10.0.0.1"}[r.Intn(5)])
		}
		s := a.String()
		switch {
		case a.Is6() && r.Intn(3) == 0:
			s = strings.ToUpper(s)
		case a.Is4() && r.Intn(8) == 0: // an IPv4 address all the same
			s = "::ffff:" + s
		case a.Is6() && r.Intn(8) == 0: // an interface of the proxy's
			s += "%" + []string{"eth0", "1", "x-y", "lo"}[r.Intn(4)]
		}
		return s, a
	}
	junk := []string{"unknown", "", "1.2.3", "1.2.3.4.5", "999.1.1.1", "1.2.3.4:80", "[::1]", "localhost", "::g", "1.2.3.4 x", "-", "0x7f.0.0.1", "1.2.3.256", "\x00", "%31.2.3.4", "_hidden"}
	id := PeerID{5}
	for i := 0; i < 900*c.Scale && !c.TooMany(); i++ {
		var h Hash
		r.Read(h[:])
		src := []string{"127.0.0.1", "127.8.8.8", "::1"}[r.Intn(3)]
		conn := mustAddr(src)
		want, fails := conn, false
		q := "/announce?" + hannc{Hash: h, ID: id, Port: "80", Left: "0"}.query()
		hdr, kind := "", ""
		pad, cut := "", 0
		switch r.Intn(10) {
		case 9: // the end of the header is missing, or did not fit
			list := ""
			for k := 1 + r.Intn(3); k > 0; k-- {
				t, _ := ipText()
				list += t + ", "
			}
			kind, fails = "a header that is cut off", true
			if r.Intn(2) == 0 { // by the end of the request
				hdr = "X-Forwarded-For: " + list[:1+r.Intn(len(list)-1)]
				cut = len(hdr) + []int{0, 0, 1}[r.Intn(3)]
			} else { // by the limit on the size
				hdr = "X-Forwarded-For: " + strings.TrimSuffix(list, ", ") + "\r\n"
				room := 17 + 1 + r.Intn(len(hdr)-17-2)
				pad = "Cookie: " + strings.Repeat("x", 2600-room-len("GET "+q+" HTTP/1.1\r\nCookie: \r\n")) + "\r\n"
			}
		case 0:
			kind, hdr = "no header", "Host: t\r\n"
		case 1, 2:
			t, a := ipText()
			kind, hdr, want = "one address", "X-Forwarded-For: "+t+"\r\n", a
		case 3, 4:
			t, a := ipText()
			list := ""
			for k := 1 + r.Intn(4); k > 0; k-- {
				o, _ := ipText()
				if r.Intn(3) == 0 {
					o = junk[r.Intn(len(junk)-3)]
				}
				list += o + []string{",", ", ", " ,", " , ", ",  "}[r.Intn(5)]
			}
			kind, hdr, want = "a list", "X-Forwarded-For: "+list+t+[]string{"", "", " "}[r.Intn(3)]+"\r\n", a
			if strings.HasSuffix(hdr, " \r\n") && r.Intn(2) == 0 {
				hdr = strings.TrimSuffix(hdr, " \r\n") + "\r\n"
			}
		case 5:
			j := junk[r.Intn(len(junk))]
			list := ""
			for k := r.Intn(3); k > 0; k-- {
				o, _ := ipText()
				list += o + ", "
			}
			kind, hdr, fails = "a last element that is no address", "X-Forwarded-For: "+list+j+"\r\n", true
		case 6: // the request target looks like the header
			t, _ := ipText()
			t, _, _ = strings.Cut(t, "%")
			inj := []string{"X-Forwarded-For: " + t, "%0d%0aX-Forwarded-For:%20" + t + "%0d%0a", "\r\nX-Forwarded-For: " + t + "\r\n", "X-Forwarded-For:%20" + t + ",", "%0D%0AX-Forwarded-For: " + t + "%0D%0A"}[r.Intn(5)]
			q = strings.Replace(q, "?", "?x="+inj+"&", 1)
			if r.Intn(2) == 0 {
				q = q + "&x=" + inj
			}
			kind, hdr = "the header's text in the target", "Host: t\r\n"
			if r.Intn(2) == 0 {
				t, a := ipText()
				hdr, want = hdr+"X-Forwarded-For: "+t+"\r\n", a
			}
		case 7: // or another header does
			t, _ := ipText()
			kind = "the header's text in another header"
			hdr = []string{"Referer: X-Forwarded-For: " + t, "X-X-Forwarded-For: " + t, "Not-X-Forwarded-For: " + t, "User-Agent: a X-Forwarded-For: " + t + ", " + t}[r.Intn(4)] + "\r\n"
			if r.Intn(2) == 0 {
				t, a := ipText()
				hdr, want = hdr+"X-Forwarded-For: "+t+"\r\n", a
			}
		default:
			t, a := ipText()
			kind, hdr, want = "among other headers", "Host: t\r\nAccept: */*\r\nX-Forwarded-For: "+t+"\r\nX-Forwarded-Proto: https\r\nVia: 1.1 vegur\r\n", a
		}
		if !heroku {
			want, fails = conn, false
		}
		req := "GET " + q + " HTTP/1.1\r\n" + pad + hdr + "\r\n"
		if cut > 0 {
			req = req[:len(req)-len(hdr)-2+cut]
		}
		if strings.Contains(q, "\r\n") && strings.Contains(q, " HTTP") {
			continue
		}
		before := db.Hashes()
		raw, err := hclient{src, s.httpPort}.raw([]byte(req))
		a, derr := decodeHAnnounce(raw)
		c.Count("announces", 1)
		c.Eval(kind + hdr + q[:20])
		if err != nil || derr != nil {
			c.Violate(req, "%s: answered with %.200q %v %v", kind, raw, err, derr)
			continue
		}
		m := model{}
		if fails {
			c.Count("bad_headers", 1)
			if a.Failure == "" {
				c.Violate(req, "%s: accepted", kind)
			}
			if db.Hashes() != before {
				c.Violate(req, "%s: changes the swarm", kind)
			}
		} else {
			if a.Failure != "" {
				c.Violate(req, "%s: refused with %q", kind, a.Failure)
				continue
			}
			m.save(h, id, mpeer{Complete: true, IP: want, Port: 80})
		}
		if d := checkTorrent(db, m, h); d != "" {
			c.Violate(req, "%s from %s: %s", kind, src, d)
		}
		db.Drop(h, id)
	}
	c.Note("app-engine build: %v", heroku)
	// any content of the header, also cut off: no crash, and the next client is served
	for i := 0; i < 500*c.Scale && !c.TooMany(); i++ {
		b := make([]byte, r.Intn(60))
		for k := range b {
			const odd = " ,.:;0123456789abcdef\r\n\x00\xff%[]"
			b[k] = odd[r.Intn(len(odd))]
		}
		var h Hash
		r.Read(h[:])
		req := "GET /announce?" + hannc{Hash: h, ID: id, Port: "80"}.query() + " HTTP/1.1\r\nX-Forwarded-For: " + string(b) + "\r\n\r\n"
		if r.Intn(3) == 0 {
			k := strings.Index(req, " HTTP")
			req = req[:k+r.Intn(len(req)-k)]
		}
		raw, err := hclient{"127.0.0.1", s.httpPort}.raw([]byte(req))
		if err != nil || bytes.Count(raw, []byte("HTTP/1.1 ")) != 1 {
			c.Violate(req, "answered with %.100q %v", raw, err)
		}
		c.Count("hostile_headers", 1)
		c.Eval(req[60:])
		if !heroku && bytes.Contains(raw, []byte("failure")) && strings.Contains(req, " HTTP/") {
			c.Violate(req, "the regular build minds the header: %.100q", raw)
		}
		// an earlier request's header is not this one's
		o := Hash{1, byte(i), byte(i >> 8)}
		a, err := hclient{"127.0.0.1", s.httpPort}.announce(hannc{Hash: o, ID: id, Port: "7", Left: "0"})
		m := model{}
		m.save(o, id, mpeer{Complete: true, IP: mustAddr("127.0.0.1"), Port: 7})
		if err != nil || a.Failure != "" {
			c.Violate(req, "the next request without the header: %q %v", a.Failure, err)
		} else if d := checkTorrent(db, m, o); d != "" {
			c.Violate(req, "the next request without the header: %s", d)
		}
		db.Drop(o, id)
	}
	s.stop()
	if !heroku {
		return
	}
	// many at once, each with its own address
	config.Config.HTTP.Threads = 8
	s = startServers(c, newDB(c), false, true)
	c.workers(8, "concurrent clients with forwarded addresses", func(w int) {
		r := c.Rand(fmt.Sprint("H05/w", w))
		for i := 0; i < 150*c.Scale && !c.TooMany(); i++ {
			h := Hash{2, byte(w), byte(i), byte(i >> 8)}
			m := model{}
			for k := 0; k < 2; k++ {
				pid := PeerID{byte(k)}
				want := randIP(r)
				hdr := "X-Forwarded-For: " + want.String() + "\r\n"
				if r.Intn(3) == 0 {
					hdr = "X-Forwarded-For: " + randIP(r).String() + ", " + want.String() + "\r\n"
				}
				req := "GET /announce?" + hannc{Hash: h, ID: pid, Port: "80", Left: "0"}.query() + " HTTP/1.1\r\n" + hdr + "\r\n"
				raw, err := hclient{"127.0.0.1", s.httpPort}.raw([]byte(req))
				a, derr := decodeHAnnounce(raw)
				if err != nil || derr != nil || a.Failure != "" {
					c.Violate(req, "among others: answered with %.200q %v %v", raw, err, derr)
					continue
				}
				m.save(h, pid, mpeer{Complete: true, IP: want, Port: 80})
				c.Count("concurrent_forwarded", 1)
			}
			if d := checkTorrent(s.db, m, h); d != "" {
				c.Violate(nil, "among other clients: %s", d)
			}
			c.Eval(fmt.Sprint("concurrent", w, i))
		}
	})
	s.stop()
}

// ---- H06

func monH06(c *Ctx) {
	files := map[string]string{}
	dir := "/repo/config/embedded"
	ents, err := os.ReadDir(dir)
	must(c, err, "embedded files")
	secret := ""
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		must(c, err, "embedded file")
		if e.Name() == "trakx.yaml" {
			secret = string(b)
			continue
		}
		s := string(b)
		if strings.HasSuffix(e.Name(), ".html") {
			s = strings.NewReplacer("\t", "", "\n", "").Replace(s)
		}
		files["/"+e.Name()] = s
	}
	if x, ok := files["/index.html"]; ok {
		files["/"] = x
	}
	if secret == "" || len(files) < 3 {
		c.Inconclusive("embedded files are not where they were: %v", ents)
	}
	lines := []string{}
	for _, l := range strings.Split(secret, "\n") {
		if len(strings.TrimSpace(l)) > 12 {
			lines = append(lines, strings.TrimSpace(l))
		}
	}
	paths := []string{"/trakx.yaml", "/trakx", "/embedded/trakx.yaml", "/embedded/index.html", "/../trakx.yaml", "/./trakx.yaml", "/..", "/../", "/../../../../../../etc/passwd", "/etc/passwd", "//etc/passwd", "//trakx.yaml", "//index.html",
		"/index.html/", "/index.htm", "/index.htmlx", "/INDEX.HTML", "/Index.html", "/index", "/index.html%00", "/%69ndex.html", "/trakx%2eyaml", "/.", "/./index.html", "/dmca", "/dmca.html/..", "/config/embedded/index.html", "/*", "/?/../trakx.yaml", "/stats/", "/announce/", "/announcex", "/scrape/", "/heartbeat/", "/%2e%2e/%2e%2e/etc/passwd", "/..\\trakx.yaml", "/proc/self/environ", "/a/b/../../index.html", "/go.mod", "/trakx.yaml?", "/index.html;x", "/ index.html"}
	r := c.Rand("H06")
	for i := 0; i < 150*c.Scale; i++ {
		p := []string{"", "/", "/index.html", "/dmca.html", "/trakx.yaml", "/etc/passwd"}[r.Intn(6)]
		for k := r.Intn(4); k > 0; k-- {
			p += []string{"/", "..", ".", "//", "%2f", "%2e", "index.html", "trakx.yaml", "x", "\\", "\x01", "~"}[r.Intn(12)]
		}
		paths = append(paths, "/"+strings.TrimPrefix(p, "/"))
	}
	leaks := func(b []byte) string {
		for _, l := range lines {
			if bytes.Contains(b, []byte(l)) {
				return "configuration file: " + l
			}
		}
		if bytes.Contains(b, []byte("root:")) || bytes.Contains(b, []byte("module github.com")) {
			return "file from the disk"
		}
		return ""
	}
	check := func(port int, mode string) {
		hc := hclient{"", port}
		for p, want := range files {
			for _, q := range []string{"", "?", "?a=b", "?x=%41&y"} {
				raw, err := hc.raw([]byte("GET " + p + q + " HTTP/1.1\r\nHost: t\r\n\r\n"))
				st, body, derr := splitHTTP(raw)
				c.Count("files_compared", 1)
				c.Eval(mode + p + q)
				if err != nil || derr != nil || st != "200" || string(body) != want {
					c.Violate(map[string]any{"answer": fmt.Sprintf("%.300q", raw)}, "%s mode: %s%s is answered with %s, %d bytes, want %d, %v", mode, p, q, st, len(body), len(want), err)
				}
			}
		}
		for _, p := range paths {
			raw, err := hc.raw([]byte("GET " + p + " HTTP/1.1\r\nHost: t\r\n\r\n"))
			if err != nil {
				c.Violate(p, "%s mode: %q: %v", mode, p, err)
				continue
			}
			c.Count("paths_tried", 1)
			c.Eval(mode + p)
			if l := leaks(raw); l != "" {
				c.Violate(map[string]any{"path": p, "answer": fmt.Sprintf("%.300q", raw)}, "%s mode: %q serves a %s", mode, p, l)
			}
			if mode != "enabled" {
				continue
			}
			path, _, _ := strings.Cut(p, "?")
			if i := strings.Index(path, " "); i >= 0 {
				path = path[:i]
			}
			if _, public := files[path]; public || path == "/announce" || path == "/scrape" || path == "/stats" || path == "/heartbeat" {
				continue
			}
			st, body, _ := splitHTTP(raw)
			if st == "200" || len(body) > 0 {
				c.Violate(map[string]any{"path": p, "answer": fmt.Sprintf("%.300q", raw)}, "%q is answered with %s and %d bytes", p, st, len(body))
			}
		}
	}
	config.Config.HTTP.Threads = 2
	s := startServers(c, newDB(c), false, true)
	check(s.httpPort, "enabled")
	s.stop()

	bin := os.Getenv("TRAKX_BIN")
	for _, mode := range []string{"enabled", "info", "disabled"} {
		up, hp := freePort(c), freePort(c)
		p := launch(c, bin, scratch(c, "h06"+mode), defaultPcfg(up, hp).with("http.mode", mode, "expvarinterval", "100ms"), []string{"execute"})
		os.WriteFile(p.cwd+"/secret.html", []byte("root: secret"), 0644)
		if !p.ready(true, mode != "disabled") {
			c.Violate(p.log(), "%s mode: the tracker exits", mode)
			continue
		}
		u, err := newUClient("127.0.0.1", up)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		h := Hash{1, 2, 3}
		hc := hclient{"127.0.0.1", hp}
		switch mode {
		case "disabled":
			time.Sleep(200 * time.Millisecond)
			if conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", hp)); err == nil {
				conn.Close()
				c.Violate(nil, "disabled mode: the HTTP port accepts connections")
			}
			if conn, err := net.Dial("tcp", fmt.Sprintf("[::1]:%d", hp)); err == nil {
				conn.Close()
				c.Violate(nil, "disabled mode: the HTTP port accepts connections over IPv6")
			}
			c.Eval("disabled")
		default:
			check(hp, mode)
			for _, x := range []string{"/secret.html", "/trakx.yaml", "/../home/.config/trakx/trakx.yaml", "/cwd/secret.html"} {
				raw, _ := hc.raw([]byte("GET " + x + " HTTP/1.1\r\nHost: t\r\n\r\n"))
				if l := leaks(raw); l != "" {
					c.Violate(nil, "%s mode: %s serves a %s", mode, x, l)
				}
			}
		}
		if mode == "info" {
			if _, err := u.announce(annc{Hash: h, ID: PeerID{7}, Port: 7, Left: 1, NumWant: 1}); err != nil {
				c.Violate(nil, "info mode: UDP announce: %v", err)
			}
			for i := 0; i < 20; i++ {
				hh := h
				if i%2 == 0 {
					r.Read(hh[:])
				}
				raw, err := hc.raw([]byte("GET /announce?" + hannc{Hash: hh, ID: PeerID{byte(i)}, Port: "80", Left: "0", Compact: i%3 == 0, Event: []string{"", "stopped", "completed"}[i%3]}.query() + " HTTP/1.1\r\nHost: t\r\n\r\n"))
				_, body, _ := splitHTTP(raw)
				v, derr := bdecodeAll(body)
				d, ok := v.(*bdict)
				if err != nil || derr != nil || !ok {
					c.Violate(fmt.Sprintf("%q", raw), "info mode: an announce is answered with no dictionary: %v", derr)
					continue
				}
				n, _ := d.Get("interval")
				if iv, ok := n.(int64); !ok || iv < 3600 {
					c.Violate(fmt.Sprintf("%q", raw), "info mode: the interval is %v", n)
				}
				hc.raw([]byte("GET /scrape?info_hash=" + esc(hh[:]) + " HTTP/1.1\r\nHost: t\r\n\r\n"))
				a, err := u.scrape([]Hash{hh, h})
				if err != nil || a.Scrape[1][0] != 0 || a.Scrape[1][2] != 1 || (hh != h && (a.Scrape[0][0] != 0 || a.Scrape[0][2] != 0)) {
					c.Violate(nil, "info mode: HTTP requests changed the swarm: %v %v", a.Scrape, err)
				}
				c.Count("info_mode_announces", 1)
			}
			if a, err := u.announce(annc{Hash: h, ID: PeerID{7}, Port: 7, Left: 1, NumWant: 10}); err != nil || len(a.Peers) != 1 {
				c.Violate(nil, "info mode: the swarm lists %v %v", a.Peers, err)
			}
		}
		u.close()
		p.stop(mode + " mode")
		if x := p.crash(); x != "" {
			c.Violate(x, "%s mode: the tracker crashed", mode)
		}
	}
}

var _ sync.Mutex
