package mon

import (
	"fmt"
	"math/rand"
	"net/netip"
	"os"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	gomap "github.com/crimist/trakx/tracker/storage/map"
)

func init() {
	register("S03", monS03)
	register("S04", monS04)
}

// bubble runs f with virtual time.
func (c *Ctx) bubble(f func()) {
	synctest.Test(c.T, func(*testing.T) { f() })
}

// watchdog watches from outside a bubble that steps keep being made.
func (c *Ctx) watchdog(what string) (step func(), stop func()) {
	var n atomic.Int64
	var over atomic.Bool
	go func() {
		last, since := int64(-1), time.Now()
		for !over.Load() {
			time.Sleep(500 * time.Millisecond)
			if x := n.Load(); x != last {
				last, since = x, time.Now()
				continue
			}
			if time.Since(since) > 60*time.Second && !over.Load() {
				done := make(chan struct{})
				go func() {
					for n.Load() == last && !over.Load() {
						time.Sleep(100 * time.Millisecond)
					}
					close(done)
				}()
				c.WaitOrStuck(done, what)
				last, since = -1, time.Now()
			}
		}
	}()
	return func() { n.Add(1) }, func() { over.Store(true) }
}

func isFast(c *Ctx) bool { return strings.Contains(c.Variant, "fast") }

// totalsProblem compares the published figures with the model.
func totalsProblem(c *Ctx, m model) string {
	if isFast(c) {
		return "" // this variant keeps no figures
	}
	s, l := m.totals()
	if gs, gl := stats.Seeds.Load(), stats.Leeches.Load(); gs != s || gl != l {
		return fmt.Sprintf("totals are %d seeders and %d leechers, want %d and %d", gs, gl, s, l)
	}
	if n := int(stats.IPStats.Total()); n != m.ips() {
		return fmt.Sprintf("%d distinct addresses, want %d", n, m.ips())
	}
	return ""
}

func dropAll(db interface{ Drop(Hash, PeerID) }, m model) {
	for h, t := range m {
		for id := range t {
			db.Drop(h, id)
		}
	}
}

func monS03(c *Ctx) {
	step, stop := c.watchdog("sweeping")
	defer stop()
	for seq := 0; seq < 60*c.Scale && !c.TooMany(); seq++ {
		c.bubble(func() { s03seq(c, seq, step) })
	}
	if !c.Violated() {
		c.bubble(func() { s03large(c, step) })
	}
	if !c.Violated() {
		s03periodic(c)
	}
}

// s03large sweeps a database of many torrents and peers at once.
func s03large(c *Ctx, step func()) {
	r := c.Rand("S03/large")
	expiry := int64(1800)
	config.Config.DB.Expiry = time.Duration(expiry) * time.Second
	db := newDB(c)
	type torrent struct {
		h          Hash
		old, young int
	}
	var all []torrent
	for i := 0; i < 40000; i++ {
		var t torrent
		r.Read(t.h[:])
		switch {
		case i%200 == 0:
			t.old, t.young = 300+r.Intn(900), r.Intn(500)
		case i%2 == 0:
			t.old = 1 + r.Intn(2)
		default:
			t.old, t.young = r.Intn(2), 1
		}
		all = append(all, t)
	}
	var a4 [4]byte
	fill := func(from func(t torrent) int, what byte) (n int) {
		step()
		for i, t := range all {
			for k := from(t); k > 0; k-- {
				id := PeerID{what, byte(k), byte(k >> 8), byte(i)}
				r.Read(a4[:2])
				db.Save(netip.AddrFrom4(a4), uint16(1+k), k%3 == 0, t.h, id)
				n++
			}
		}
		return
	}
	old := fill(func(t torrent) int { return t.old }, 1)
	time.Sleep(time.Duration(expiry) * time.Second)
	young := fill(func(t torrent) int { return t.young }, 2)
	time.Sleep(time.Second)
	db.Trim()
	step()
	remain, seeds := 0, int64(0)
	for _, t := range all {
		if t.young > 0 {
			remain++
		}
		s, l := counts(db, t.h)
		if int(s+l) != t.young || int(s) != t.young/3 {
			c.Violate(nil, "after the sweep of %d of %d peers at once a torrent has counts %d/%d, want %d/%d", old, old+young, s, l, t.young/3, t.young-t.young/3)
			break
		}
		seeds += s
	}
	if n := db.Hashes(); n != remain {
		c.Violate(nil, "after a sweep of a large database %d torrents are left, %d have peers", n, remain)
	}
	if s, l := stats.Seeds.Load(), stats.Leeches.Load(); !isFast(c) && (s != seeds || s+l != int64(young)) {
		c.Violate(nil, "after a sweep of a large database the totals are %d/%d, want %d/%d", s, l, seeds, int64(young)-seeds)
	}
	c.Count("peers_swept_at_once", old)
	c.Count("torrents_swept_at_once", len(all)-remain)
	c.Eval("large")
	time.Sleep(time.Duration(expiry+1) * time.Second)
	db.Trim()
	if n := db.Hashes(); n != 0 {
		c.Violate(nil, "%d torrents are left when all peers of a large database have expired", n)
	}
	if s, l := stats.Seeds.Load(), stats.Leeches.Load(); !isFast(c) && (s != 0 || l != 0) {
		c.Violate(nil, "the totals are %d/%d when all peers of a large database have expired", s, l)
	}
}

func s03seq(c *Ctx, seq int, step func()) {
	r := c.Rand(fmt.Sprint("S03/", seq))
	expiry := []int64{1, 2, 5, 30, 60, 3600, 90 * 60, 48 * 3600}[r.Intn(8)]
	config.Config.DB.Expiry = time.Duration(expiry) * time.Second
	db := newDB(c)
	m := model{}
	hashes := similarHashes(r, 2+r.Intn(8))
	ids := similarIDs(r, 2+r.Intn(10))
	var hist []string
	log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	start := time.Now().Unix()
	problem := ""
	check := func() string {
		for _, h := range hashes {
			if d := checkTorrent(db, m, h); d != "" {
				return fmt.Sprintf("torrent %x: %s", h, d)
			}
			c.Count("torrent_comparisons", 1)
		}
		return totalsProblem(c, m)
	}
	ips := make([]mpeer, 4) // few addresses so that they are shared
	for i := range ips {
		ips[i].IP = randIP(r)
	}
	n := 30 + r.Intn(80)
	for i := 0; i < n && problem == ""; i++ {
		step()
		h, id := hashes[r.Intn(len(hashes))], ids[r.Intn(len(ids))]
		switch x := r.Intn(20); {
		case x < 9:
			p := mpeer{Complete: r.Intn(2) == 0, IP: ips[r.Intn(len(ips))].IP, Port: uint16(1 + r.Intn(65535)), Seen: time.Now().Unix()}
			if r.Intn(3) == 0 {
				p.IP = randIP(r)
			}
			if old, ok := m[h][id]; ok && r.Intn(2) == 0 {
				p = old // an announce that changes nothing renews as well
				p.Seen = time.Now().Unix()
				c.Count("pure_renewals", 1)
			}
			log("%d save %x %x %v", p.Seen-start, h[17:], id[17:], p)
			db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
		case x < 11:
			log("%d drop %x %x", time.Now().Unix()-start, h[17:], id[17:])
			db.Drop(h, id)
			m.drop(h, id)
		case x < 16:
			d := []int64{1, expiry - 1, expiry, expiry + 1, 1 + r.Int63n(expiry), expiry / 2}[r.Intn(6)]
			log("sleep %d", d)
			time.Sleep(time.Duration(d) * time.Second)
		default:
			now := time.Now().Unix()
			boundary := 0
			for _, t := range m {
				for _, p := range t {
					if d := now - p.Seen - expiry; d == 0 || d == 1 {
						boundary++
					}
				}
			}
			c.Count("peers_at_the_boundary", boundary)
			removed := m.sweep(now, expiry)
			log("%d sweep removing %d", now-start, removed)
			db.Trim()
			c.Count("sweeps", 1)
			c.Count("expired_peers", removed)
			if n := db.Hashes(); n != m.torrents() {
				problem = fmt.Sprintf("%d torrents after a sweep, want %d", n, m.torrents())
			}
		}
		if problem == "" {
			problem = check()
		}
	}
	if problem == "" { // everything expires in the end
		time.Sleep(time.Duration(expiry+1) * time.Second)
		db.Trim()
		m.sweep(time.Now().Unix(), expiry)
		if problem = check(); problem == "" && db.Hashes() != 0 {
			problem = fmt.Sprintf("%d torrents left after everything expired", db.Hashes())
		}
	}
	c.Eval(strings.Join(hist, ";"))
	if seq < 1 {
		c.Sample(hist)
	}
	if problem != "" {
		c.Violate(map[string]any{"sequence": seq, "expiry": expiry, "history": tail(hist, 150)}, "%s", problem)
	}
	dropAll(db, m)
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
}

// s03periodic watches the sweeps that happen on their own and never returns:
// the periodic goroutines cannot be ended.
func s03periodic(c *Ctx) {
	synctest.Test(c.T, func(*testing.T) {
		const expiry = 100
		config.Config.DB.Expiry = expiry * time.Second
		type unit struct {
			db       *gomap.Memory
			interval int64
			seen     map[int]int64 // second of the last announce
			gone     map[int]int64
		}
		var us []*unit
		for _, iv := range []int64{1, 7, 60, 600} {
			config.Config.DB.Trim = time.Duration(iv) * time.Second
			us = append(us, &unit{db: newDB(c), interval: iv, seen: map[int]int64{}, gone: map[int]int64{}})
		}
		config.Config.DB.Trim = 0
		none := newDB(c) // 0 disables nothing but the periodic sweep
		time.Sleep(500 * time.Millisecond)
		start := time.Now().Unix()
		h := Hash{1}
		id := func(i int) (p PeerID) { p[0], p[1] = byte(i), byte(i>>8); return }
		const peers = 300
		p0 := mpeer{IP: randIP(rand.New(rand.NewSource(1))), Port: 1}
		none.Save(p0.IP, 1, false, h, id(0))
		for sec := 0; sec < 2200; sec++ {
			now := time.Now().Unix() - start
			for _, u := range us {
				if sec < peers {
					u.db.Save(p0.IP, uint16(sec+1), sec%2 == 0, h, id(sec))
					u.seen[sec] = now
				}
				if sec%50 == 0 && sec < 1000 { // peer 3 renews itself
					u.db.Save(p0.IP, 4, true, h, id(3))
					u.seen[3] = now
				}
				present := map[int]bool{}
				ls, err := peerList(u.db, h, 1<<20, false)
				if err != nil {
					c.Violate(nil, "list: %v", err)
				}
				for _, l := range ls {
					present[int(l.ID[0])|int(l.ID[1])<<8] = true
				}
				for i, t := range u.seen {
					if present[i] || u.gone[i] != 0 {
						continue
					}
					u.gone[i] = now
					c.Count("periodically_expired", 1)
					if now-t <= expiry {
						c.Violate(nil, "interval %d: a peer silent for %d s was removed, expiry is %d", u.interval, now-t, expiry)
					}
				}
				for i, t := range u.seen {
					if present[i] && now-t > expiry+u.interval+1 {
						c.Violate(nil, "interval %d: a peer silent for %d s is still listed", u.interval, now-t)
						u.seen[i] = now
					}
				}
			}
			if c.TooMany() {
				break
			}
			time.Sleep(time.Second)
		}
		for _, u := range us {
			// removals happen at sweeps, which are one interval apart
			var times []int64
			for t := range 2200 {
				for _, g := range u.gone {
					if g == int64(t) {
						times = append(times, int64(t))
						break
					}
				}
			}
			for i := 1; i < len(times); i++ {
				if d := times[i] - times[i-1]; d%u.interval != 0 {
					c.Violate(times, "sweeps %d s apart, interval is %d s", d, u.interval)
					break
				}
			}
			c.Count("periodic_sweeps_seen", len(times))
			c.Eval(fmt.Sprint("periodic", u.interval, times))
			if len(u.gone) != peers {
				c.Violate(nil, "interval %d: %d of %d peers expired", u.interval, len(u.gone), peers)
			}
		}
		if s, l := counts(none, h); s+l != 1 {
			c.Violate(nil, "a disabled periodic sweep removed a peer")
		}
		c.Flush(true)
		os.Exit(0)
	})
}

// ---- S04: sweeps racing with everything else

type s04peer struct {
	h    Hash
	id   PeerID
	last mpeer
	in   bool // last operation was an announce
}

func monS04(c *Ctx) {
	step, stop := c.watchdog("sweeping while announcing")
	defer stop()
	const expiry = 100
	config.Config.DB.Expiry = expiry * time.Second
	path := scratch(c, "s04") + "/db"
	config.Config.DB.Backup.Path = path
	c.bubble(func() {
		file := &gomap.FileBackup{}
		db := &gomap.Memory{}
		if err := db.Init(file); err != nil {
			c.Violate(nil, "opening an empty database failed: %v", err)
			return
		}
		for round := 0; round < 250*c.Scale && !c.TooMany(); round++ {
			s04round(c, db, round, expiry, step)
		}
	})
}

func s04round(c *Ctx, db *gomap.Memory, round int, expiry int64, step func()) {
	r := c.Rand(fmt.Sprint("S04/", round))
	// shape of the round: few or many torrents, few peers each
	nh := []int{1, 1, 2, 3, 8, 40}[r.Intn(6)]
	owners := 2 + r.Intn(3)
	per := 1 + r.Intn(3)
	m := model{}
	hashes := make([]Hash, nh)
	for i := range hashes {
		hashes[i] = Hash{byte(round), byte(round >> 8), byte(i), 4}
	}
	peers := make([][]*s04peer, owners)
	for o := range peers {
		for i := range hashes {
			for k := 0; k < per; k++ {
				peers[o] = append(peers[o], &s04peer{h: hashes[i], id: PeerID{byte(o), byte(k), 9}})
			}
		}
	}
	mk := func(r *rand.Rand) mpeer {
		return mpeer{Complete: r.Intn(2) == 0, IP: randIP(r), Port: uint16(1 + r.Intn(65535)), Seen: time.Now().Unix()}
	}
	// stale members, and torrents whose last peer has stopped
	for _, ps := range peers {
		for _, p := range ps {
			if r.Intn(4) > 0 {
				p.last = mk(r)
				db.Save(p.last.IP, p.last.Port, p.last.Complete, p.h, p.id)
				if r.Intn(4) == 0 {
					db.Drop(p.h, p.id)
				} else {
					p.in = true
				}
			}
		}
	}
	time.Sleep(time.Duration(expiry+1) * time.Second)
	// members that must never be absent
	anchor := map[Hash]mpeer{}
	for i, h := range hashes {
		if i%3 == 2 {
			p := mk(r)
			anchor[h] = p
			db.Save(p.IP, p.Port, p.Complete, h, PeerID{255})
		}
	}
	now := time.Now().Unix()
	seeds := make([]int64, owners)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	sweeps, saves, asks := 1+r.Intn(3), r.Intn(2), r.Intn(2)
	n := owners + sweeps + saves + asks
	var absent atomic.Int64
	var b barrier
	fin := make(chan struct{}, n)
	for k := 0; k < n; k++ {
		go func() {
			b.wait(int32(n))
			switch {
			case k < owners:
				r := rand.New(rand.NewSource(seeds[k]))
				for _, j := range r.Perm(len(peers[k])) {
					p := peers[k][j]
					switch x := r.Intn(10); {
					case x < 6:
						p.last, p.in = mk(r), true
						db.Save(p.last.IP, p.last.Port, p.last.Complete, p.h, p.id)
						c.Count("racing_announces", 1)
					case x < 8:
						db.Drop(p.h, p.id)
						p.in = false
						if r.Intn(2) == 0 {
							p.last, p.in = mk(r), true
							db.Save(p.last.IP, p.last.Port, p.last.Complete, p.h, p.id)
						}
					}
				}
			case k < owners+sweeps:
				for j := 0; j < 1+int(seeds[0]%3); j++ {
					db.Trim()
					c.Count("racing_sweeps", 1)
				}
			case k < owners+sweeps+saves:
				if err := db.Backup().Save(); err != nil {
					c.Violate(nil, "saving failed: %v", err)
				}
				db.Hashes()
			default:
				for j := 0; j < 3; j++ {
					for h := range anchor {
						ls, err := peerList(db, h, 1000, false)
						found := false
						for _, l := range ls {
							found = found || l.ID[0] == 255
						}
						if err != nil || !found {
							absent.Add(1)
						}
						counts(db, h)
						compactLists(db, h, 50)
					}
					stats.IPStats.Total()
				}
			}
			fin <- struct{}{}
		}()
	}
	for k := 0; k < n; k++ {
		<-fin
	}
	step()
	if absent.Load() > 0 {
		c.Violate(map[string]any{"round": round}, "a peer that had just announced was missing from a list while sweeps ran")
	}
	for h, p := range anchor {
		m.save(h, PeerID{255}, p)
	}
	for _, ps := range peers {
		for _, p := range ps {
			if p.in {
				m.save(p.h, p.id, p.last)
			}
		}
	}
	// stale peers may still be there; one more sweep settles it
	db.Trim()
	m.sweep(now, expiry)
	problem := ""
	for _, h := range hashes {
		if d := checkTorrent(db, m, h); d != "" {
			problem = fmt.Sprintf("torrent %x after racing sweeps: %s", h[:4], d)
			break
		}
	}
	if problem == "" {
		problem = totalsProblem(c, m)
	}
	if nt := db.Hashes(); problem == "" && nt != m.torrents() {
		problem = fmt.Sprintf("%d torrents, want %d", nt, m.torrents())
	}
	// what was announced lives on for the expiry time
	if problem == "" && round%4 == 0 {
		time.Sleep(time.Duration(expiry) * time.Second)
		db.Trim()
		for _, h := range hashes {
			if d := checkTorrent(db, m, h); d != "" {
				problem = fmt.Sprintf("torrent %x silent for exactly the expiry: %s", h[:4], d)
				break
			}
		}
	}
	c.Eval(fmt.Sprint(round, nh, owners, per, sweeps, sortedModel(m[hashes[0]])))
	if problem != "" {
		c.Violate(map[string]any{"round": round, "torrents": nh, "owners": owners}, "%s", problem)
	}
	dropAll(db, m)
	time.Sleep(time.Second)
	db.Trim()
	if problem != "" {
		stats.Seeds.Store(0)
		stats.Leeches.Store(0)
	}
}
