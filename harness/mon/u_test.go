package mon

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"testing"
	"testing/synctest"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/udp"
	"github.com/crimist/trakx/tracker/udp/protocol"
)

func init() {
	register("U01", monU01)
	register("U02", monU02)
	register("U03", monU03)
	register("U04", monU04)
	register("U05", monU05)
}

// vconn is the connection table, when it can be reached.
type vconn interface {
	Add(id int64, addr netip.AddrPort)
	Check(id int64, addr netip.AddrPort) bool
	Trim()
	Write(path string) error
	Load(path string) error
	Size() int
}

var (
	newVConn     func(time.Duration) vconn
	trackerVConn func(*udp.UDPTracker) vconn
)

// ---- U01

func monU01(c *Ctx) {
	for round := 0; round < 4*c.Scale && !c.TooMany(); round++ {
		config.Config.UDP.ConnDB.Validate = true
		config.Config.UDP.Threads = 1 + round%3
		u01round(c, round, true)
	}
	config.Config.UDP.ConnDB.Validate = false
	u01round(c, 1<<20, false)
	config.Config.UDP.ConnDB.Validate = true
	config.Config.UDP.Threads = 4
	u01concurrent(c)
	u01restarts(c)
}

// u01restarts: what a tracker hands out says nothing about what it hands out
// after another start.
func u01restarts(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	if bin == "" {
		return
	}
	from := map[int64]int{}
	for k := 0; k < 4 && !c.TooMany(); k++ {
		dir := scratch(c, fmt.Sprint("u01-start-", k))
		up := freePort(c)
		p := launch(c, bin, dir, defaultPcfg(up, freePort(c)), []string{"execute"})
		if !p.ready(true, true) {
			c.Violate(lastBytes(p.log(), 3000), "the tracker does not start")
			return
		}
		for i := 0; i < 50; i++ {
			u, err := newUClient(fmt.Sprintf("127.0.0.%d", 1+i%9), up)
			must(c, err, "client")
			must(c, u.connect(), "connect")
			u.close()
			if other, ok := from[u.cid]; ok {
				c.Violate(nil, "connection id %x is issued by tracker start %d and by tracker start %d", u.cid, other, k)
			}
			from[u.cid] = k
			c.Count("ids_of_fresh_starts", 1)
		}
		p.stop("tracker")
		c.Eval(fmt.Sprint("start", k))
	}
}

func u01round(c *Ctx, round int, validate bool) {
	r := c.Rand(fmt.Sprint("U01/", round))
	s := startServers(c, newDB(c), true, false)
	defer s.stop()
	type cl struct {
		*uclient
		has bool
		old []int64
	}
	var cs []*cl
	// same address with different ports, same port on different addresses
	for _, ip := range append([]string{"127.0.0.1", "127.0.0.1", "127.0.0.2", "::1", "::1"}, some(r, 5, sources())...) {
		u, err := newUClient(ip, s.udpPort)
		must(c, err, "client")
		cs = append(cs, &cl{uclient: u})
	}
	samePort := func(ip string, port int) {
		conn, err := net.DialUDP("udp", net.UDPAddrFromAddrPort(netip.AddrPortFrom(netip.MustParseAddr(ip), uint16(port))), net.UDPAddrFromAddrPort(netip.AddrPortFrom(serverFor(ip), uint16(s.udpPort))))
		if err != nil {
			return // taken
		}
		ap := conn.LocalAddr().(*net.UDPAddr).AddrPort()
		cs = append(cs, &cl{uclient: &uclient{conn: conn, addr: netip.AddrPortFrom(recorded(ip), ap.Port())}})
		c.Count("same_port_clients", 1)
	}
	samePort("127.0.0.3", int(cs[0].addr.Port()))
	samePort("127.0.1.1", int(cs[0].addr.Port()))
	samePort("::1", int(cs[0].addr.Port()))
	for _, ip := range some(r, 2, sources()) {
		samePort(ip, int(cs[0].addr.Port()))
	}
	for _, x := range cs {
		defer x.close()
	}
	issued := map[int64]bool{}
	m := model{}
	var hist []string
	hashes := []Hash{{1}, {2}}
	for i := 0; i < 150 && !c.TooMany(); i++ {
		k := r.Intn(len(cs))
		u := cs[k]
		if x := r.Intn(10); x < 2 {
			prev, had := u.cid, u.has
			if err := u.connect(); err != nil {
				c.Violate(hist, "connect: %v", err)
				return
			}
			if issued[u.cid] {
				c.Violate(hist, "connection id %x was issued before", u.cid)
			}
			issued[u.cid] = true
			if had {
				u.old = append(u.old, prev)
			}
			u.has = true
			hist = append(hist, fmt.Sprintf("client %d connects", k))
			c.Count("connects", 1)
			continue
		}
		id, ok, how := u.cid, u.has, "its id"
		if !u.has {
			id, how = 0, "0 without connecting"
		}
		if r.Intn(5) > 1 {
			ok = false
			o := cs[r.Intn(len(cs))]
			switch x := r.Intn(9); {
			case x == 0 && len(u.old) > 0:
				id, how = u.old[len(u.old)-1], "its previous id"
			case x == 1 && len(u.old) > 0:
				id, how = u.old[r.Intn(len(u.old))], "an earlier id"
			case x == 2 && o != u && o.has:
				id, how = o.cid, "another's id"
			case x == 3:
				id, how = 0, "0"
			case x == 4:
				id, how = 0x41727101980, "the protocol id"
			case x == 5:
				id, how = u.cid^(1<<r.Intn(64)), "one bit off"
			case x == 6:
				id, how = int64(uint64(u.cid)>>32|uint64(u.cid)<<32), "halves swapped"
			case x == 7:
				id, how = -u.cid, "negated"
			default:
				id, how = r.Int63(), "random"
			}
			if u.has && id == u.cid {
				ok = true
			}
		}
		honoured := ok || !validate
		h := hashes[r.Intn(2)]
		pid := PeerID{byte(r.Intn(4))}
		tx := r.Uint32()
		var req []byte
		a := annc{Hash: h, ID: pid, Left: int64(r.Intn(2)), Port: uint16(1 + r.Intn(65535)), NumWant: 50, Event: []uint32{0, 1, 2, 3}[r.Intn(4)]}
		kind := "announce"
		if r.Intn(3) == 0 {
			kind = "scrape"
			req = pkScrape(id, tx, hashes[:1+r.Intn(2)])
		} else {
			req = pkAnnounce(id, tx, a)
		}
		hist = append(hist, fmt.Sprintf("client %d %ss with %s", k, kind, how))
		raw, err := u.rpc(req)
		if err != nil {
			c.Violate(tail(hist, 50), "no answer to a %s: %v", kind, err)
			return
		}
		ans, err := decodeUAnswer(raw, u.addr.Addr().Is6())
		c.Eval(fmt.Sprint(kind, how, honoured, a.Event, u.addr.Addr(), u.has, len(u.old)))
		switch {
		case err != nil || ans.Tx != tx:
			c.Violate(tail(hist, 50), "answer %x to transaction %x: %v", raw, tx, err)
		case honoured && ans.Action != map[string]uint32{"announce": 1, "scrape": 2}[kind]:
			c.Violate(tail(hist, 50), "%s with %s was refused: %q", kind, how, ans.Err)
		case !honoured && ans.Action != 3:
			c.Violate(tail(hist, 50), "%s with %s was honoured", kind, how)
		case !honoured && len(raw) > map[string]int{"announce": 98, "scrape": 36}[kind]:
			c.Violate(tail(hist, 50), "refusing a %s takes %d bytes", kind, len(raw))
		}
		if honoured {
			c.Count("honoured", 1)
		} else {
			c.Count("refused", 1)
		}
		if honoured && kind == "announce" {
			if a.Event == 3 {
				m.drop(h, pid)
			} else {
				m.save(h, pid, mpeer{Complete: a.Left == 0 || a.Event == 1, IP: u.addr.Addr(), Port: a.Port})
			}
		}
		for _, h := range hashes {
			if d := checkTorrent(s.db, m, h); d != "" {
				c.Violate(tail(hist, 50), "after a %s with %s: %s", kind, how, d)
			}
		}
	}
	if round == 0 {
		c.Sample(hist[:12])
	}
}

// u01concurrent: many clients connect and use their id at once.
func u01concurrent(c *Ctx) {
	s := startServers(c, newDB(c), true, false)
	defer s.stop()
	var mu sync.Mutex
	issued := map[int64]bool{}
	c.workers(16, "connecting", func(k int) {
		r := c.Rand(fmt.Sprint("U01/c", k))
		u, err := newUClient([]string{"127.0.0.1", fmt.Sprintf("127.0.0.%d", k+2), "::1"}[k%3], s.udpPort)
		must(c, err, "client")
		defer u.close()
		for i := 0; i < 60*c.Scale && !c.TooMany(); i++ {
			old := u.cid
			if err := u.connect(); err != nil {
				c.Violate(nil, "connect: %v", err)
				return
			}
			mu.Lock()
			if issued[u.cid] {
				c.Violate(nil, "connection id %x was issued twice", u.cid)
			}
			issued[u.cid] = true
			mu.Unlock()
			for j := r.Intn(3); j >= 0; j-- {
				if _, err := u.scrape([]Hash{{1}}); err != nil {
					c.Violate(nil, "scrape right after the connect: %v", err)
				}
			}
			raw, err := u.rpc(pkScrape(old, 7, nil))
			if err != nil || len(raw) < 8 || raw[3] != 3 {
				c.Violate(nil, "the previous connection id still works: %x %v", raw, err)
			}
			c.Count("concurrent_connects", 1)
		}
	})
}

// ---- U02

func monU02(c *Ctx) {
	config.CachePath = scratch(c, "u02") + "/"
	path := config.CachePath + "conn.db"
	if newVConn == nil {
		c.Note("the connection table is not reachable, only its behaviour on the network is checked")
	} else if !strings.Contains(c.Variant, "race") {
		for seq := 0; seq < 60*c.Scale && !c.TooMany(); seq++ {
			c.bubble(func() { u02seq(c, seq, path) })
		}
	}
	if newVConn != nil {
		for round := 0; round < 12*c.Scale && !c.TooMany(); round++ {
			u02race(c, round, path)
			c.bubble(func() { u02sweep(c, round) })
		}
	}
	if strings.Contains(c.Variant, "race") {
		return
	}
	u02files(c, path)
	u02net(c, path)
	if newVConn != nil && !c.Violated() {
		u02periodic(c, path)
	}
}

type conn02 struct{ id, ts int64 }

func u02seq(c *Ctx, seq int, path string) {
	r := c.Rand(fmt.Sprint("U02/", seq))
	expiry := []int64{1, 2, 60, 120, 1800, 7200}[r.Intn(6)]
	db := newVConn(time.Duration(expiry) * time.Second)
	var addrs []netip.AddrPort
	for i := 0; i < 12; i++ {
		a := randIP(r)
		if r.Intn(4) == 0 {
			a = netip.MustParseAddr([]string{"::1", "::", "127.0.0.1", "0.0.0.0", "255.255.255.255"}[r.Intn(5)])
		}
		p := uint16(r.Intn(65536))
		addrs = append(addrs, netip.AddrPortFrom(a, p), netip.AddrPortFrom(a, p^1), netip.AddrPortFrom(a, p<<8|p>>8))
	}
	m := map[netip.AddrPort]conn02{}
	var ids []int64
	var hist []string
	problem := ""
	verify := func() string {
		if db.Size() != len(m) {
			return fmt.Sprintf("%d remembered, want %d", db.Size(), len(m))
		}
		for _, a := range addrs {
			x, ok := m[a]
			if ok != db.Check(x.id, a) && (ok || x.id != 0) {
				return fmt.Sprintf("id of %v remembered=%v, want %v", a, !ok, ok)
			}
			if !ok {
				for _, id := range ids {
					if db.Check(id, a) {
						return fmt.Sprintf("id %x is accepted from %v which has none", id, a)
					}
				}
			}
			for k := 0; k < 3 && len(ids) > 0; k++ {
				if id := ids[r.Intn(len(ids))]; id != x.id && db.Check(id, a) {
					return fmt.Sprintf("id %x is accepted from %v which has %x", id, a, x.id)
				}
			}
		}
		return ""
	}
	for i := 0; i < 60 && problem == ""; i++ {
		now := time.Now().Unix()
		switch x := r.Intn(12); {
		case x < 5:
			a, id := addrs[r.Intn(len(addrs))], r.Int63()
			if r.Intn(8) == 0 {
				id = -id
			}
			ids = append(ids, id)
			db.Add(id, a)
			m[a] = conn02{id, now}
			hist = append(hist, fmt.Sprintf("%d add %v", now, a))
		case x < 8:
			d := []int64{1, expiry - 1, expiry, expiry + 1, 1 + r.Int63n(expiry), expiry / 2}[r.Intn(6)]
			time.Sleep(time.Duration(d) * time.Second)
			hist = append(hist, fmt.Sprintf("sleep %d", d))
		case x < 10:
			for a, e := range m {
				if now-e.ts > expiry {
					delete(m, a)
					c.Count("expired", 1)
				} else if now-e.ts == expiry {
					c.Count("kept_at_the_boundary", 1)
				}
			}
			db.Trim()
			hist = append(hist, fmt.Sprintf("%d sweep", now))
			c.Count("sweeps", 1)
		default: // a restart
			if err := db.Write(path); err != nil {
				problem = fmt.Sprintf("writing failed: %v", err)
				break
			}
			if r.Intn(3) > 0 {
				db = newVConn(time.Duration(expiry) * time.Second)
				if r.Intn(2) == 0 {
					db.Add(1, addrs[0]) // is replaced by what is loaded
				}
			}
			if err := db.Load(path); err != nil {
				problem = fmt.Sprintf("loading failed: %v", err)
			}
			hist = append(hist, fmt.Sprintf("%d restart with %d", now, len(m)))
			c.Count("restarts", 1)
		}
		if problem == "" {
			problem = verify()
		}
		c.Count("comparisons", 1)
	}
	c.Eval(strings.Join(hist, ";"))
	if seq == 0 {
		c.Sample(tail(hist, 20))
	}
	if problem != "" {
		c.Violate(map[string]any{"expiry": expiry, "history": hist}, "%s", problem)
	}
	os.Remove(path)
}

// u02race: connects, checks, sweeps and writes at the same time.
func u02race(c *Ctx, round int, path string) {
	db := newVConn(time.Hour)
	const n = 6
	addr := func(k, i int) netip.AddrPort {
		return netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 0, byte(i), 1}), uint16(100+k))
	}
	// from, to: when it may have been current; added, end: when it must have been
	type iv struct{ from, to, added, end int64 }
	hist := make([]map[int64]iv, n)
	last := make([]map[int]int64, n)
	type written struct {
		from, to int64
		db       vconn
	}
	var ws []written
	c.workers(n+2, "connection table", func(k int) {
		if k == n {
			for i := 0; i < 10; i++ {
				db.Trim()
				db.Size()
			}
			return
		}
		if k == n+1 {
			for i := 0; i < 6; i++ {
				from := clock()
				if err := db.Write(path); err != nil {
					c.Violate(nil, "writing failed: %v", err)
				}
				to := clock()
				d := newVConn(time.Hour)
				if err := d.Load(path); err != nil {
					c.Violate(nil, "loading a table written under traffic failed: %v", err)
				}
				ws = append(ws, written{from, to, d})
			}
			return
		}
		r := c.Rand(fmt.Sprint("U02/race/", round, "/", k))
		hist[k], last[k] = map[int64]iv{}, map[int]int64{}
		for j := 0; j < 80; j++ {
			i := r.Intn(4)
			id := r.Int63()
			old, had := last[k][i]
			from := clock()
			db.Add(id, addr(k, i))
			to := clock()
			if had {
				h := hist[k][old]
				h.to, h.end = to, from
				hist[k][old] = h
			}
			hist[k][id] = iv{from: from, added: to}
			last[k][i] = id
			if !db.Check(id, addr(k, i)) {
				c.Violate(nil, "an id is not valid right after its connect")
			}
			if had && db.Check(old, addr(k, i)) {
				c.Violate(nil, "an id is still valid after a newer connect")
			}
			if db.Check(id, addr((k+1)%n, i)) {
				c.Violate(nil, "an id is valid for another port")
			}
			c.Count("concurrent_operations", 4)
		}
	})
	for _, w := range ws {
		for k := range hist {
			perAddr := map[int]int{}
			for id, t := range hist[k] {
				for i := 0; i < 4; i++ {
					if w.db.Check(id, addr(k, i)) {
						perAddr[i]++
						if t.from > w.to || (t.to != 0 && t.to < w.from) {
							c.Violate(nil, "a written table holds an id that was not current while it was written")
						}
					}
				}
				// current from before the write started until after it ended
				if t.added < w.from && (t.end == 0 || t.end > w.to) {
					found := false
					for i := 0; i < 4; i++ {
						found = found || w.db.Check(id, addr(k, i))
					}
					if !found {
						c.Violate(nil, "a written table lacks an id that was current all the time")
					}
					c.Count("ids_that_had_to_be_written", 1)
				}
			}
		}
	}
	total := 0
	for k := range last {
		total += len(last[k])
		for i, id := range last[k] {
			if !db.Check(id, addr(k, i)) {
				c.Violate(nil, "the last id of an address was lost")
			}
		}
	}
	if db.Size() != total {
		c.Violate(nil, "%d remembered, want %d", db.Size(), total)
	}
	c.Eval(fmt.Sprint("race", round))
}

// u02files starts trackers on damaged connection files.
// u02sweep: clients whose ids have just expired come back, and others connect
// for the first time, while sweeps run. Virtual time stands still meanwhile.
func u02sweep(c *Ctx, round int) {
	r := c.Rand(fmt.Sprint("U02/sweep/", round))
	expiry := []time.Duration{time.Second, time.Minute, time.Hour}[r.Intn(3)]
	db := newVConn(expiry)
	const n, per = 5, 400
	addr := func(k, i int) netip.AddrPort {
		return netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, byte(i >> 8), byte(i), 1}), uint16(100+k))
	}
	for k := 0; k < n; k++ {
		for i := 0; i < per; i++ {
			db.Add(1, addr(k, i))
		}
	}
	time.Sleep(expiry + time.Second) // all of them have expired
	var kept [n]map[int]int64
	var busy atomic.Int32
	busy.Store(n)
	done := make(chan struct{})
	for k := 0; k < n; k++ {
		k, r := k, c.Rand(fmt.Sprint("U02/sweep/", round, "/", k))
		kept[k] = map[int]int64{}
		go func() {
			defer func() { done <- struct{}{} }()
			defer busy.Add(-1)
			for j := 0; j < per/2; j++ {
				i, id := r.Intn(per*3/2), r.Int63()
				db.Add(id, addr(k, i))
				kept[k][i] = id
				if j%8 == 0 && !db.Check(id, addr(k, i)) {
					c.Violate(nil, "an id issued during a sweep was forgotten at once")
				}
				c.Count("connects_during_sweeps", 1)
			}
		}()
	}
	for busy.Load() > 0 {
		db.Trim()
		c.Count("sweeps_during_connects", 1)
	}
	for k := 0; k < n; k++ {
		<-done
	}
	db.Trim()
	want := 0
	for k := range kept {
		want += len(kept[k])
		for i, id := range kept[k] {
			if !db.Check(id, addr(k, i)) {
				c.Violate(nil, "an id issued during a sweep was forgotten, expiry is %v and no time has passed", expiry)
				return
			}
		}
	}
	if db.Size() != want {
		c.Violate(nil, "%d ids are remembered after a sweep during connects, want %d", db.Size(), want)
	}
	time.Sleep(expiry)
	db.Trim()
	if db.Size() != want {
		c.Violate(nil, "%d ids are remembered at the boundary, want %d", db.Size(), want)
	}
	time.Sleep(time.Second)
	db.Trim()
	if db.Size() != 0 {
		c.Violate(nil, "%d ids are remembered after their expiry", db.Size())
	}
	c.Eval(fmt.Sprint("sweep", round, want))
}

func u02files(c *Ctx, path string) {
	config.Config.UDP.ConnDB.Expiry = time.Hour
	config.Config.UDP.ConnDB.Trim = 24 * time.Hour
	r := c.Rand("U02/files")
	// a good file first, written by a tracker
	os.Remove(path)
	s := startServers(c, newDB(c), true, false)
	var us []*uclient
	for i := 0; i < 6; i++ {
		u, err := newUClient([]string{"127.0.0.1", "127.3.2.1", "::1"}[i%3], s.udpPort)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		us = append(us, u)
	}
	if n := s.udp.Connections(); n != len(us) {
		c.Violate(nil, "%d connections, want %d", n, len(us))
	}
	if err := s.udp.WriteConns(); err != nil {
		c.Violate(nil, "writing connections: %v", err)
		return
	}
	good, err := os.ReadFile(path)
	must(c, err, "connection file")
	s.stop()
	// a restart on the same port keeps every id
	db := newDB(c)
	var t *udp.UDPTracker
	restart := func() {
		t = &udp.UDPTracker{}
		t.Init(db)
	}
	restart()
	config.Config.UDP.Port = s.udpPort
	go t.Serve()
	if waitUDP(s.udpPort, make(chan error)) {
		for _, u := range us {
			if _, err := u.scrape([]Hash{{1}}); err != nil {
				c.Violate(nil, "after a restart an id is not honoured: %v", err)
			}
		}
		c.Count("ids_honoured_after_restart", len(us))
		t.Shutdown()
	}
	n := len(good)
	// what the file is to a decoder of its own, if that can read a good one
	conns := func(b []byte) int {
		var m map[netip.AddrPort]struct{ ID, TimeStamp int64 }
		if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&m); err != nil {
			return -1
		}
		return len(m)
	}
	gobs := conns(good) == len(us)
	var files [][]byte
	for i := 0; i < n; i++ {
		files = append(files, good[:i])
	}
	for i := 0; i < 150*c.Scale; i++ {
		b := bytes.Clone(good)
		switch r.Intn(4) {
		case 0:
			b[r.Intn(n)] ^= 1 << r.Intn(8)
		case 1:
			for k := 0; k < 5; k++ {
				b[r.Intn(n)] = byte(r.Intn(256))
			}
		case 2:
			b = make([]byte, r.Intn(300))
			r.Read(b)
		case 3:
			i := r.Intn(n)
			b = append(b[:i:i], good[r.Intn(n):]...)
		}
		files = append(files, b)
	}
	for i, b := range files {
		os.WriteFile(path, b, 0644)
		os.WriteFile(path+".last", b, 0644) // shows the culprit of a crash
		restart()
		size := t.Connections()
		if i < n && size != 0 { // a truncated file cannot be decoded
			c.Violate(map[string]any{"file": hx(b)}, "a file cut to %d of %d bytes yields %d connections", len(b), n, size)
		}
		if gobs && size != 0 && conns(b) < 0 {
			c.Violate(map[string]any{"file": hx(b)}, "a file that cannot be decoded yields %d connections", size)
		}
		if size < 0 || size > 100 {
			c.Violate(map[string]any{"file": hx(b)}, "%d connections from a damaged file", size)
		}
		if gobs && conns(b) < 0 {
			c.Count("undecodable_files", 1)
		}
		c.Count("damaged_files", 1)
		c.Eval(string(b))
	}
	// neither a file nor a directory of that name is a crash, and the tracker works
	os.Remove(path)
	os.Mkdir(path, 0755)
	restart()
	if t.Connections() != 0 {
		c.Violate(nil, "%d connections from a directory", t.Connections())
	}
	os.Remove(path)
	os.WriteFile(path, good[:n/2], 0644)
	s = startServers(c, newDB(c), true, false)
	u, err := newUClient("127.0.0.1", s.udpPort)
	must(c, err, "client")
	if err := u.connect(); err != nil {
		c.Violate(nil, "after a damaged connection file: %v", err)
	} else if _, err := u.scrape([]Hash{{1}}); err != nil {
		c.Violate(nil, "after a damaged connection file: %v", err)
	}
	for _, o := range us {
		if raw, err := u.rpc(pkScrape(o.cid, 1, nil)); err == nil && raw[3] == 2 {
			c.Violate(nil, "an id of a damaged file is honoured for another address")
		}
	}
	s.stop()
	os.Remove(path)
}

// u02net checks lifetimes on the network with bounds that hold on any clock.
func u02net(c *Ctx, path string) {
	config.Config.UDP.ConnDB.Expiry = 2 * time.Second
	config.Config.UDP.ConnDB.Trim = 100 * time.Millisecond
	s := startServers(c, newDB(c), true, false)
	var us []*uclient
	for _, ip := range []string{"127.0.0.1", "127.0.0.9", "::1"} {
		u, err := newUClient(ip, s.udpPort)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		us = append(us, u)
	}
	start := time.Now()
	renewed := make([]time.Time, len(us))
	gone := make([]bool, len(us))
	for time.Since(start) < 8*time.Second {
		for i, u := range us {
			if gone[i] {
				continue
			}
			if i == 0 && time.Since(start) < 4*time.Second { // keeps renewing
				renewed[i] = time.Now()
				if err := u.connect(); err != nil {
					c.Violate(nil, "connect: %v", err)
				}
			}
			if renewed[i].IsZero() {
				renewed[i] = start
			}
			raw, err := u.rpc(pkScrape(u.cid, 1, nil))
			age := time.Since(renewed[i])
			ok := err == nil && raw[3] == 2
			if !ok {
				gone[i] = true
			}
			// whole seconds are compared, so the limit is crossed between 2 and 3 seconds
			if !ok && age < 2*time.Second {
				c.Violate(nil, "an id was forgotten after %v, expiry is 2s", age)
			}
			c.Count("network_lifetime_checks", 1)
		}
		time.Sleep(20 * time.Millisecond)
		if gone[0] && gone[1] && gone[2] {
			break
		}
	}
	for i := range us {
		// 8 seconds are ample for sweeps that come ten times a second
		if !gone[i] {
			c.Violate(nil, "an id is still honoured %v after it was issued, expiry is 2s", time.Since(renewed[i]))
		}
	}
	if n := s.udp.Connections(); n != 0 && gone[0] && gone[1] && gone[2] {
		c.Violate(nil, "%d connections left", n)
	}
	s.stop()
}

// u02periodic never returns: the sweeps that happen on their own.
func u02periodic(c *Ctx, path string) {
	os.Remove(path)
	config.Config.UDP.ConnDB.Expiry = 100 * time.Second
	config.Config.UDP.ConnDB.Trim = 7 * time.Second
	synctest.Test(c.T, func(*testing.T) {
		u := &udp.UDPTracker{}
		u.Init(newDB(c))
		v := trackerVConn(u)
		start := time.Now()
		time.Sleep(500 * time.Millisecond)
		seen := map[int]int64{}
		gone := map[int]bool{}
		a := func(i int) netip.AddrPort { return netip.AddrPortFrom(netip.AddrFrom4([4]byte{1, 2, 3, 4}), uint16(i)) }
		for sec := 0; sec < 400; sec++ {
			now := int64(time.Since(start) / time.Second)
			if sec < 150 {
				v.Add(int64(sec), a(sec))
				seen[sec] = now
				if sec%40 == 0 {
					v.Add(3, a(3))
					seen[3] = now
				}
			}
			for i, t := range seen {
				ok := v.Check(int64(i), a(i))
				if ok && now-t > 100+8 {
					c.Violate(nil, "an id is remembered for %d s, expiry 100 s, sweeps every 7 s", now-t)
					return
				}
				if !ok && !gone[i] {
					gone[i] = true
					c.Count("periodically_expired", 1)
					if now-t <= 100 {
						c.Violate(nil, "an id was forgotten after %d s, expiry 100 s", now-t)
					}
				}
			}
			time.Sleep(time.Second)
		}
		if len(gone) != 150 {
			c.Violate(nil, "%d of 150 ids expired", len(gone))
		}
		c.Eval("periodic")
		c.Flush(true)
		os.Exit(0)
	})
}

// ---- U03

func monU03(c *Ctx) {
	config.Config.UDP.Threads = 1
	s := startServers(c, newDB(c), true, false)
	r := c.Rand("U03")
	var us []*uclient
	for _, ip := range []string{"127.0.0.1", "127.5.5.5", "::1"} {
		u, err := newUClient(ip, s.udpPort)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		us = append(us, u)
	}
	idle, err := newUClient("127.0.0.1", s.udpPort)
	must(c, err, "client")
	must(c, idle.connect(), "connect")
	lens := []int{0, 1, 7, 8, 11, 12, 15, 16, 17, 20, 35, 36, 37, 97, 98, 99, 100, 116, 1495, 1496, 1497, 1500, 2000, 9000, 65507}
	actions := []uint32{0, 1, 2, 3, 4, 5, 6, 255, 256, 257, 258, 260, 0x100, 0x10001, 0x01000000, 0x02000001, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff}
	classes := map[string]int{}
	for i := 0; i < 4000*c.Scale && !c.TooMany(); i++ {
		u := us[r.Intn(len(us))]
		n := lens[r.Intn(len(lens))]
		if r.Intn(2) == 0 {
			n = r.Intn(140)
		}
		act := actions[r.Intn(len(actions))]
		if r.Intn(3) > 0 {
			act = uint32(r.Intn(3))
		}
		if r.Intn(12) == 0 {
			act = r.Uint32()
		}
		valid := r.Intn(3) > 0
		b := make([]byte, n)
		switch r.Intn(4) {
		case 0: // zeros
		case 1:
			for k := range b {
				b[k] = 0xff
			}
		default:
			r.Read(b)
		}
		if act == 1 && n >= 98 && r.Intn(2) == 0 { // a proper announce and trailing bytes
			copy(b, pkAnnounce(0, 0, annc{Hash: Hash{byte(i)}, ID: PeerID{byte(r.Intn(5))}, Left: int64(r.Intn(2)), Event: uint32(r.Intn(4)), Port: uint16(1 + r.Intn(65535)), NumWant: int32(r.Uint32())}))
		}
		if n >= 98 && r.Intn(5) == 0 {
			b[96], b[97] = 0, 0
		}
		cid := r.Int63()
		if valid {
			cid = u.cid
		}
		head := make([]byte, 16)
		binary.BigEndian.PutUint64(head, uint64(cid))
		binary.BigEndian.PutUint32(head[8:], act)
		tx := r.Uint32()
		binary.BigEndian.PutUint32(head[12:], tx)
		copy(b, head)
		if n >= 16 && n <= 1496 {
			act = binary.BigEndian.Uint32(b[8:12])
		}
		seen := n
		if seen > 1496 {
			seen = 1496 // more than any useful request
		}
		before := stats.ClientErrors.Load()
		out, err := u.fence(b)
		if err != nil {
			c.Violate(map[string]any{"datagram": hx(b[:min(n, 200)]), "length": n}, "no answer to a heartbeat after a datagram of %d bytes, action %d: %v", n, act, err)
			return
		}
		bad := func(f string, a ...any) {
			c.Violate(map[string]any{"datagram": hx(b[:min(n, 200)]), "length": n, "answers": len(out)}, "%d bytes, action %d, valid id %v: %s", n, act, valid, fmt.Sprintf(f, a...))
		}
		class := "silent"
		var want []uint32 // possible actions of the answer, none: no answer
		optional := false
		switch {
		case n < 16:
		case act == 4:
			class = "heartbeat"
			// the fence's own answer came first, so this datagram's follows
			if r, err := u.recv(60 * time.Second); err != nil || len(r) != 1 || r[0] != 0xff || len(out) > 0 {
				bad("a heartbeat must be answered with one byte 0xFF: %v %x %x", err, r, out)
			}
		case act == 0:
			class, want = "connect", []uint32{0}
		case act == 3:
			class, want, optional = "error", []uint32{3}, true
		case act > 4:
			class, want = "unknown action", []uint32{3}
		case !valid:
			class, want = "bad id", []uint32{3}
		case act == 1 && n < 98:
			class, want = "short announce", []uint32{3}
		case act == 1 && b[96] == 0 && b[97] == 0:
			class, want = "port 0", []uint32{3}
		case act == 1:
			class, want = "announce", []uint32{1}
		case act == 2 && (seen-16)%20 == 0:
			class, want = "scrape", []uint32{2}
		case act == 2:
			class, want = "odd scrape", []uint32{2, 3}
		}
		classes[class]++
		c.Eval(fmt.Sprint(class, n, act, valid, u.addr.Addr()))
		if class == "heartbeat" {
			continue
		}
		if len(out) > 1 || (want == nil && len(out) > 0) || (want != nil && !optional && len(out) == 0) {
			bad("%s got %d answers", class, len(out))
			continue
		}
		if len(out) == 0 {
			continue
		}
		a, err := decodeUAnswer(out[0], u.addr.Addr().Is6())
		ok := false
		for _, w := range want {
			ok = ok || a.Action == w
		}
		if err != nil || !ok {
			bad("%s is answered with %.80x %v", class, out[0], err)
			continue
		}
		if a.Tx != tx {
			bad("%s is answered with transaction id %x, sent %x", class, a.Tx, tx)
		}
		if a.Action == 3 && a.Err == "" {
			bad("%s is answered with an empty error", class)
		}
		if a.Action == 3 && class != "error" && stats.ClientErrors.Load()+stats.ServerErrors.Load() <= before {
			bad("%s is answered with an error that is not counted", class)
		}
		if a.Action == 0 {
			if len(out[0]) != 16 {
				bad("a connect is answered with %d bytes", len(out[0]))
			} else {
				u.cid = int64(binary.BigEndian.Uint64(out[0][8:]))
			}
		}
		if a.Action == 2 && class == "scrape" && len(out[0]) != 8+12*((seen-16)/20) {
			bad("a scrape of %d hashes is answered with %d bytes", (seen-16)/20, len(out[0]))
		}
	}
	for k, v := range classes {
		c.Count("datagrams: "+k, v)
	}
	// answers go to the sender only
	if out, err := idle.fence(nil); err != nil || len(out) > 0 {
		c.Violate(nil, "a client that sent nothing got %d datagrams %v", len(out), err)
	}
	// and the tracker still serves
	for _, u := range us {
		if _, err := u.announce(annc{Hash: Hash{1}, ID: PeerID{1}, Port: 5, NumWant: 5, Left: 1}); err != nil {
			c.Violate(nil, "after all datagrams: %v", err)
		}
	}
	s.stop()
	// with many workers at once every request still gets its own answer
	config.Config.UDP.Threads = 8
	s = startServers(c, newDB(c), true, false)
	c.workers(8, "hostile datagrams", func(k int) {
		r := c.Rand(fmt.Sprint("U03/c", k))
		u, err := newUClient("127.0.0.1", s.udpPort)
		must(c, err, "client")
		defer u.close()
		must(c, u.connect(), "connect")
		for i := 0; i < 300*c.Scale && !c.TooMany(); i++ {
			switch r.Intn(4) {
			case 0:
				b := make([]byte, r.Intn(16))
				u.conn.Write(b)
			case 1:
				tx := u.next()
				b := pkAnnounce(r.Int63(), tx, annc{Port: 5})
				raw, err := u.rpc(b[:16+r.Intn(83)])
				if err != nil || len(raw) < 8 || raw[3] != 3 || binary.BigEndian.Uint32(raw[4:]) != tx {
					c.Violate(nil, "bad announce answered with %x %v", raw, err)
				}
			case 2:
				if _, err := u.announce(annc{Hash: Hash{byte(i)}, ID: PeerID{byte(k)}, Port: 5, NumWant: 5, Left: 1}); err != nil {
					c.Violate(nil, "%v", err)
				}
			default:
				if _, err := u.scrape(make([]Hash, r.Intn(75))); err != nil {
					c.Violate(nil, "%v", err)
				}
			}
			c.Count("concurrent_datagrams", 1)
		}
	})
	s.stop()
}

// ---- U04

func monU04(c *Ctx) {
	config.Config.HTTP.Threads = 2
	config.Config.UDP.Threads = 1
	s := startServers(c, newDB(c), true, true)
	r := c.Rand("U04")
	var us []*uclient
	for _, ip := range []string{"127.0.0.1", "::1"} {
		u, err := newUClient(ip, s.udpPort)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		us = append(us, u)
	}
	// torrents with all kinds of counts
	m := model{}
	hashes := similarHashes(r, 40)
	for i, h := range hashes {
		seeds, leeches := r.Intn(6), r.Intn(6)
		switch {
		case i == 3:
			seeds, leeches = 300, 257
		case i == 4:
			seeds, leeches = 0, 70000
		case i == 5:
			seeds, leeches = 66000, 3
		case i%7 == 6:
			seeds, leeches = 0, 0
		}
		for k := 0; k < seeds+leeches; k++ {
			id := PeerID{byte(k), byte(k >> 8), byte(k >> 16)}
			p := mpeer{Complete: k < seeds, IP: netip.AddrFrom4([4]byte{1, byte(k), byte(k >> 8), 1}), Port: 1}
			s.db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
		}
		if i%7 == 6 && i%2 == 0 { // known but empty
			s.db.Save(netip.AddrFrom4([4]byte{1}), 1, true, h, PeerID{1})
			s.db.Drop(h, PeerID{1})
		}
	}
	cnt := map[Hash][2]int64{}
	refresh := func(h Hash) {
		a, b := m.counts(h)
		cnt[h] = [2]int64{a, b}
	}
	for _, h := range hashes {
		refresh(h)
	}
	unknown := func() (h Hash) {
		if r.Intn(2) == 0 {
			h = hashes[r.Intn(len(hashes))]
			h[r.Intn(20)] ^= 0x55
			if _, ok := cnt[h]; ok {
				h = Hash{7, 7, 7}
			}
			return
		}
		r.Read(h[:])
		return
	}
	for i := 0; i < 75*4*c.Scale && !c.TooMany(); i++ {
		n := i % 75
		q := make([]Hash, n)
		for j := range q {
			switch r.Intn(5) {
			case 0:
				q[j] = unknown()
			case 1:
				if j > 0 {
					q[j] = q[r.Intn(j)]
					break
				}
				fallthrough
			default:
				q[j] = hashes[r.Intn(len(hashes))]
			}
		}
		u := us[r.Intn(2)]
		tx := r.Uint32()
		out, err := u.fence(pkScrape(u.cid, tx, q))
		if err != nil || len(out) != 1 {
			c.Violate(nil, "scrape of %d hashes got %d answers %v", n, len(out), err)
			continue
		}
		b := out[0]
		if len(b) != 8+12*n || binary.BigEndian.Uint32(b) != 2 || binary.BigEndian.Uint32(b[4:]) != tx {
			c.Violate(nil, "scrape of %d hashes answered with %d bytes: %.40x", n, len(b), b)
			continue
		}
		for j, h := range q {
			e := b[8+12*j:]
			s, l := int64(binary.BigEndian.Uint32(e)), int64(binary.BigEndian.Uint32(e[8:]))
			if cnt[h] != [2]int64{s, l} {
				c.Violate(map[string]any{"entry": hx(e[:12])}, "scrape of %d hashes: entry %d says %d/%d, want %v", n, j, s, l, cnt[h])
				break
			}
		}
		c.Count("scraped_hashes", n)
		c.Eval(fmt.Sprint(n, q))
		if i%3 == 0 { // the counts move on, and the answers agree with each other
			h := hashes[r.Intn(len(hashes))]
			id := PeerID{0xfe, byte(r.Intn(3))}
			if r.Intn(3) == 0 {
				u.announce(annc{Hash: h, ID: id, Event: 3, Port: 3})
				m.drop(h, id)
			} else {
				left := int64(r.Intn(2))
				a, err := u.announce(annc{Hash: h, ID: id, Left: left, Port: 3, NumWant: 1})
				m.save(h, id, mpeer{Complete: left == 0})
				if w0, w1 := m.counts(h); err != nil || int64(a.Seeders) != w0 || int64(a.Leechers) != w1 {
					c.Violate(nil, "announce says %d/%d, want %d/%d %v", a.Seeders, a.Leechers, w0, w1, err)
				}
			}
			refresh(h)
			hs, err := hclient{"", s.httpPort}.scrape([]Hash{h, hashes[0]})
			if err != nil || hs[h] != cnt[h] || hs[hashes[0]] != cnt[hashes[0]] {
				c.Violate(nil, "HTTP scrape says %v %v, want %v", hs[h], err, cnt[h])
			}
			c.Count("cross_checks", 1)
		}
	}
	// more than 74 hashes do not fit into what is read; whatever is answered fits the 74
	s.stop()
	// with several workers nobody gets another's counts
	config.Config.UDP.Threads = 6
	s = startServers(c, s.db, true, false)
	c.workers(8, "concurrent scrapes", func(k int) {
		r := c.Rand(fmt.Sprint("U04/c", k))
		u, err := newUClient("127.0.0.1", s.udpPort)
		must(c, err, "client")
		defer u.close()
		must(c, u.connect(), "connect")
		for i := 0; i < 100*c.Scale && !c.TooMany(); i++ {
			q := make([]Hash, r.Intn(75))
			for j := range q {
				q[j] = hashes[r.Intn(len(hashes))]
			}
			a, err := u.scrape(q)
			if err != nil {
				c.Violate(nil, "%v", err)
				continue
			}
			for j, h := range q {
				if cnt[h] != [2]int64{int64(a.Scrape[j][0]), int64(a.Scrape[j][2])} {
					c.Violate(nil, "concurrent scrape: entry %d says %v, want %v", j, a.Scrape[j], cnt[h])
				}
			}
			c.Count("scraped_hashes", len(q))
		}
	})
	s.stop()
}

// ---- U05

func monU05(c *Ctx) {
	r := c.Rand("U05")
	r32 := func() int32 {
		switch r.Intn(4) {
		case 0:
			return []int32{0, 1, -1, 1 << 30, -1 << 31, 1<<31 - 1, 256, 255}[r.Intn(8)]
		}
		return int32(r.Uint32())
	}
	r64 := func() int64 {
		switch r.Intn(4) {
		case 0:
			return []int64{0, 1, -1, 1 << 62, -1 << 63, 1<<63 - 1, 0x41727101980, 256}[r.Intn(8)]
		}
		return int64(r.Uint64())
	}
	p32 := func(b []byte, v int32) []byte { return binary.BigEndian.AppendUint32(b, uint32(v)) }
	p64 := func(b []byte, v int64) []byte { return binary.BigEndian.AppendUint64(b, uint64(v)) }
	check := func(what string, got []byte, err error, want []byte) {
		c.Count("encodings", 1)
		c.Eval(what + string(want))
		if err != nil || !bytes.Equal(got, want) {
			c.Violate(nil, "%s encodes to %x, want %x (%v)", what, got, want, err)
		}
	}
	decode := func(what string, raw []byte, f func([]byte) error, get func() any, want any) {
		b := bytes.Clone(raw)
		err := f(b)
		c.Count("decodings", 1)
		if err != nil || !reflect.DeepEqual(get(), want) {
			c.Violate(map[string]any{"bytes": hx(raw)}, "%s decodes to %+v, want %+v (%v)", what, get(), want, err)
		}
		if !bytes.Equal(b, raw) {
			c.Violate(map[string]any{"bytes": hx(raw)}, "decoding a %s changes its input", what)
		}
	}
	for i := 0; i < 3000*c.Scale && !c.TooMany(); i++ {
		var x, y, z, w = r32(), r32(), r32(), r32()
		act := protocol.Action(r32())
		a64, b64, c64, d64 := r64(), r64(), r64(), r64()

		con := protocol.Connect{ProtcolID: a64, Action: act, TransactionID: x}
		raw := p32(p32(p64(nil, a64), int32(act)), x)
		got, err := con.Marshall()
		check("connect", got, err, raw)
		con2 := protocol.Connect{ProtcolID: 1, Action: 2, TransactionID: 3}
		decode("connect", raw, con2.Unmarshall, func() any { return con2 }, con)

		cr := protocol.ConnectResp{Action: act, TransactionID: x, ConnectionID: b64}
		raw = p64(p32(p32(nil, int32(act)), x), b64)
		got, err = cr.Marshall()
		check("connect response", got, err, raw)
		var cr2 protocol.ConnectResp
		decode("connect response", raw, cr2.Unmarshall, func() any { return cr2 }, cr)

		an := protocol.Announce{ConnectionID: a64, Action: act, TransactionID: x, Downloaded: b64, Left: c64, Uploaded: d64,
			IP: r.Uint32(), Key: r.Uint32(), NumWant: y, Port: uint16(r.Intn(65536))}
		ev := r32()
		reflect.ValueOf(&an).Elem().FieldByName("Event").SetInt(int64(ev))
		r.Read(an.InfoHash[:])
		r.Read(an.PeerID[:])
		raw = p32(p32(p64(nil, a64), int32(act)), x)
		raw = append(append(raw, an.InfoHash[:]...), an.PeerID[:]...)
		raw = p32(p64(p64(p64(raw, b64), c64), d64), ev)
		raw = p32(p32(p32(raw, int32(an.IP)), int32(an.Key)), y)
		raw = binary.BigEndian.AppendUint16(raw, an.Port)
		got, err = an.Marshall()
		check("announce", got, err, raw)
		var an2 protocol.Announce
		decode("announce", raw, an2.Unmarshall, func() any { return an2 }, an)
		var an3 protocol.Announce // with extensions behind
		decode("announce with extensions", append(bytes.Clone(raw), make([]byte, r.Intn(40))...), an3.Unmarshall, func() any { return an3 }, an)

		peers := make([]byte, []int{0, 6, 18, 6 * r.Intn(100), 18 * r.Intn(100), 6 * 10000}[r.Intn(6)])
		r.Read(peers)
		ar := protocol.AnnounceResp{Action: act, TransactionID: x, Interval: y, Leechers: z, Seeders: w, Peers: peers}
		raw = append(p32(p32(p32(p32(p32(nil, int32(act)), x), y), z), w), peers...)
		got, err = ar.Marshall()
		check("announce response", got, err, raw)
		var ar2 protocol.AnnounceResp
		decode("announce response", raw, ar2.Unmarshall, func() any { return ar2 }, ar)

		hs := make([]Hash, r.Intn(75))
		raw = p32(p32(p64(nil, a64), int32(act)), x)
		for j := range hs {
			r.Read(hs[j][:])
			raw = append(raw, hs[j][:]...)
		}
		sc := protocol.Scrape{ConnectionID: a64, Action: act, TransactionID: x, InfoHashes: hs}
		var sc2 protocol.Scrape
		decode("scrape", raw, sc2.Unmarshall, func() any { return sc2 }, sc)

		infos := make([]protocol.ScrapeInfo, r.Intn(75))
		raw = p32(p32(nil, int32(act)), x)
		for j := range infos {
			infos[j] = protocol.ScrapeInfo{Complete: r32(), Incomplete: r32(), Downloaded: r32()}
			raw = p32(p32(p32(raw, infos[j].Complete), infos[j].Downloaded), infos[j].Incomplete)
		}
		sr := protocol.ScrapeResp{Action: act, TransactionID: x, Info: infos}
		got, err = sr.Marshall()
		check("scrape response", got, err, raw)

		msg := make([]byte, r.Intn(200))
		r.Read(msg)
		e := protocol.Error{Action: act, TransactionID: x, ErrorString: msg}
		raw = append(p32(p32(nil, int32(act)), x), msg...)
		got, err = e.Marshall()
		check("error", got, err, raw)
		var e2 protocol.Error
		decode("error", raw, e2.Unmarshall, func() any { return e2 }, e)

		// messages at or above the minimum never panic, nor change
		for _, d := range []struct {
			what string
			min  int
			f    func([]byte) error
		}{{"connect", 16, new(protocol.Connect).Unmarshall}, {"connect response", 16, new(protocol.ConnectResp).Unmarshall},
			{"announce", 98, new(protocol.Announce).Unmarshall}, {"announce response", 20, new(protocol.AnnounceResp).Unmarshall},
			{"scrape", 16, new(protocol.Scrape).Unmarshall}, {"error", 8, new(protocol.Error).Unmarshall}} {
			b := make([]byte, d.min+r.Intn(60))
			r.Read(b)
			keep := bytes.Clone(b)
			func() {
				defer func() {
					if p := recover(); p != nil {
						c.Violate(map[string]any{"bytes": hx(keep)}, "decoding a %s of %d bytes panics: %v", d.what, len(keep), p)
					}
				}()
				if err := d.f(b); err != nil && (len(keep)-d.min)%20 == 0 {
					c.Violate(map[string]any{"bytes": hx(keep)}, "decoding a %s of %d bytes fails: %v", d.what, len(keep), err)
				}
			}()
			if !bytes.Equal(b, keep) {
				c.Violate(nil, "decoding a %s changes its input", d.what)
			}
			c.Count("random_decodings", 1)
		}
	}
	c.Sample("all messages with random and extreme fields, lists of 0 to 10000 peers, 0 to 74 hashes")
}

var _ = rand.Int
