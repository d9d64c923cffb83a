package mon

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	gomap "github.com/crimist/trakx/tracker/storage/map"
)

func init() { register("B05", monB05) }

// b05op is an announce or a stop of a peer by its only client.
type b05op struct {
	present     bool
	peer        mpeer
	sent, acked int64 // acked 0: no answer
}

type b05peer struct {
	h   Hash
	id  PeerID
	ops []b05op
}

// allowed are the states the peer may have in a database written after a
// signal sent at time t: that of its last operation acknowledged before, or
// of any operation after that.
func (p *b05peer) allowed(t int64) (out []b05op) {
	last := b05op{}
	for _, o := range p.ops {
		if o.acked != 0 && o.acked < t {
			last, out = o, nil
			continue
		}
		out = append(out, o)
	}
	return append(out, last)
}

// b05judge compares a written database with what was acknowledged.
func b05judge(c *Ctx, db *gomap.Memory, peers []*b05peer, t int64) string {
	lists := map[Hash]map[string]listed{}
	total := map[Hash]int{}
	for _, p := range peers {
		if lists[p.h] == nil {
			ls, err := peerList(db, p.h, 1<<20, false)
			if err != nil {
				return err.Error()
			}
			lists[p.h] = map[string]listed{}
			for _, l := range ls {
				lists[p.h][l.ID] = l
			}
			total[p.h] = len(ls)
		}
		l, in := lists[p.h][string(p.id[:])]
		ok := false
		al := p.allowed(t)
		for _, o := range al {
			ok = ok || o.present == in && (!in || l.IP == o.peer.IP && l.Port == o.peer.Port)
		}
		if len(al) == 1 {
			c.Count("peers_with_one_possible_state", 1)
		}
		if !ok {
			return fmt.Sprintf("peer %x of torrent %x: written %v %v, possible are %+v of %d operations", p.id[:6], p.h[:4], in, l, al, len(p.ops))
		}
		if in {
			total[p.h]--
		}
		c.Count("peers_judged", 1)
	}
	for h, n := range total {
		if n != 0 {
			return fmt.Sprintf("torrent %x holds %d peers nobody announced", h, n)
		}
	}
	return ""
}

type b05client struct {
	u     *uclient
	http  hclient
	ip    string
	peers []*b05peer
}

// run announces and stops its peers until told to stop.
func (cl *b05client) run(r *rand.Rand, n int, over *atomic.Bool) {
	for i := 0; i < n && !over.Load(); i++ {
		p := cl.peers[r.Intn(len(cl.peers))]
		o := b05op{present: r.Intn(4) != 0, peer: mpeer{IP: mustAddr(cl.ip), Port: uint16(1 + r.Intn(65535)), Complete: r.Intn(2) == 0}, sent: clock()}
		left := int64(1)
		if o.peer.Complete {
			left = 0
		}
		ok := false
		if r.Intn(2) == 0 {
			a := annc{Hash: p.h, ID: p.id, Left: left, Port: o.peer.Port, NumWant: 1}
			if !o.present {
				a.Event = 3
			}
			tx := cl.u.next()
			cl.u.conn.Write(pkAnnounce(cl.u.cid, tx, a))
			for {
				raw, err := cl.u.recv(2 * time.Second)
				if err != nil {
					break
				}
				if d, err := decodeUAnswer(raw, cl.u.addr.Addr().Is6()); err == nil && d.Tx == tx {
					ok = d.Action == 1
					break
				}
			}
		} else {
			a := hannc{Hash: p.h, ID: p.id, Left: fmt.Sprint(left), Port: fmt.Sprint(o.peer.Port), NumWant: "1"}
			if !o.present {
				a.Event = "stopped"
			}
			raw, err := cl.http.rawFor([]byte("GET /announce?"+a.query()+" HTTP/1.1\r\nHost: t\r\n\r\n"), 5*time.Second)
			if err == nil {
				d, derr := decodeHAnnounce(raw)
				ok = derr == nil && d.Failure == "" && len(raw) > 0
			}
		}
		if ok {
			o.acked = clock()
		}
		p.ops = append(p.ops, o)
		if !ok && i > 0 {
			time.Sleep(5 * time.Millisecond)
		}
	}
}

func monB05(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	for round := 0; round < 6*c.Scale && !c.TooMany(); round++ {
		b05round(c, bin, round)
	}
	for k := 0; k < max(1, c.Scale/2) && !c.TooMany(); k++ {
		b05failing(c, bin, k)
	}
	for k := 0; k < max(1, c.Scale/2) && !c.TooMany(); k++ {
		b05during(c, bin, k)
	}
	for k := 0; k < max(2, c.Scale/2) && !c.TooMany(); k++ {
		b05stops(c, bin, k)
	}
}

// b05stops: at the end nobody is served any more while the database is written.
// The database server of the backup is silent until that is seen.
func b05stops(c *Ctx, bin string, k int) {
	dir := scratch(c, fmt.Sprint("b05-stops-", k))
	f := newFakePG(c)
	entered, release := make(chan struct{}), make(chan struct{})
	var once sync.Once
	f.lock(func() { f.onInsert = func() { once.Do(func() { close(entered) }); <-release } })
	up, hp := freePort(c), freePort(c)
	p := launch(c, bin, dir, defaultPcfg(up, hp).with("db.backup.type", "pg", "db.backup.path", f.url()), []string{"execute"})
	if !p.ready(true, true) {
		c.Violate(lastBytes(p.log(), 3000), "the tracker does not start")
		return
	}
	defer p.kill()
	u, err := newUClient([]string{"127.0.0.1", "::1"}[k%2], up)
	must(c, err, "client")
	defer u.close()
	must(c, u.connect(), "connect")
	h := Hash{5, byte(k)}
	if _, err := u.announce(annc{Hash: h, ID: PeerID{1}, Left: 1, Port: 3, NumWant: -1}); err != nil {
		c.Violate(nil, "announce: %v", err)
	}
	p.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[k%2])
	select {
	case <-entered:
	case <-time.After(60 * time.Second):
		c.Violate(lastBytes(p.log(), 2000), "the database is not written after a signal to stop")
		close(release)
		return
	}
	serves := ""
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end) && !p.exited(); time.Sleep(50 * time.Millisecond) {
		serves = ""
		// lost if it is served: the database is on its way
		u.conn.Write(pkAnnounce(u.cid, 77, annc{Hash: h, ID: PeerID{2}, Left: 1, Port: 4, NumWant: -1}))
		if b, err := u.recv(300 * time.Millisecond); err == nil {
			serves = fmt.Sprintf("UDP announces are answered with %x", b)
		}
		if raw, err := (hclient{"127.0.0.1", hp}).rawFor([]byte("GET /scrape?info_hash="+esc(h[:])+" HTTP/1.1\r\n\r\n"), time.Second); err == nil && len(raw) > 0 {
			serves = fmt.Sprintf("HTTP requests are answered with %.60q", raw)
		}
		if serves == "" {
			break
		}
	}
	close(release)
	if serves != "" {
		c.Violate(lastBytes(p.log(), 2000), "the database is being written at the end, yet %s", serves)
	}
	if !p.wait(60*time.Second) || p.code() != 0 {
		c.Violate(lastBytes(p.log(), 2000), "the tracker does not end with success after a signal")
	}
	c.Count("saves_after_service_ended", 1)
	c.Eval(fmt.Sprint("stops", k))
}

// b05failing: while the database cannot be written, the connection table is
// written all the same, the tracker goes on serving and obeys later signals.
func b05failing(c *Ctx, bin string, k int) {
	r := c.Rand(fmt.Sprint("B05/failing", k))
	dir := scratch(c, fmt.Sprint("b05-failing-", k))
	must(c, os.Mkdir(dir+"/bk", 0755), "directory")
	path := dir + "/bk/backup.db"
	up, hp := freePort(c), freePort(c)
	cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path)
	p := launch(c, bin, dir, cfg, []string{"execute"})
	if !p.ready(true, true) {
		c.Violate(lastBytes(p.log(), 3000), "the tracker does not start")
		return
	}
	defer p.kill()
	fail := func(f string, a ...any) { c.Violate(lastBytes(p.log(), 2000), f, a...) }
	var clients []*b05client
	join := func(ip string) {
		u, err := newUClient(ip, up)
		must(c, err, "client")
		if err := u.connect(); err != nil {
			fail("connect while saves fail: %v", err)
			return
		}
		clients = append(clients, &b05client{u: u, http: hclient{ip, hp}, ip: ip})
	}
	defer func() {
		for _, cl := range clients {
			cl.u.close()
		}
	}()
	var peers []*b05peer
	announce := func() {
		q := &b05peer{h: Hash{0xfa, byte(len(peers) % 2)}}
		r.Read(q.id[:])
		one := &b05client{u: clients[0].u, http: clients[0].http, ip: clients[0].ip, peers: []*b05peer{q}}
		var never atomic.Bool
		one.run(r, 3, &never)
		peers = append(peers, q)
	}
	join("127.0.0.1")
	join("::1")
	written := func(why string) {
		bad := ""
		for i := 0; i < 60; i++ {
			if bad = b05copy(c, bin, dir, fmt.Sprint("copy", i), cfg, clients, up); bad == "" {
				c.Count("tables_written_though_the_database_was_not", 1)
				return
			}
			time.Sleep(100 * time.Millisecond)
		}
		fail("%s, the connection table is not written: %s", why, bad)
	}
	for n := 0; n < 2 && !c.Violated(); n++ {
		announce()
		must(c, os.Rename(dir+"/bk", dir+"/gone"), "rename")
		p.signal(syscall.SIGUSR1)
		c.Count("failing_saves", 1)
		written("at a save signal while the database cannot be written")
		if p.exited() {
			fail("the tracker ends when a save fails")
			return
		}
		if c.Violated() {
			return
		}
		join(fmt.Sprintf("127.0.8.%d", n+2))
		announce()
		must(c, os.Rename(dir+"/gone", dir+"/bk"), "rename")
		os.Remove(path)
		at := clock()
		p.signal(syscall.SIGUSR1)
		problem := "nothing is written"
		for end := time.Now().Add(60 * time.Second); problem != "" && time.Now().Before(end) && !p.exited(); time.Sleep(20 * time.Millisecond) {
			if b, err := os.ReadFile(path); err == nil {
				os.WriteFile(dir+"/judged", b, 0644)
				if db, err := openFile(dir + "/judged"); err != nil {
					problem = err.Error()
				} else {
					problem = b05judge(c, db, peers, at)
				}
			}
		}
		if problem != "" {
			fail("a save signal after one whose save failed: %s", problem)
			return
		}
		c.Count("saves_after_a_failed_one", 1)
	}
	if c.Violated() {
		return
	}
	join("127.0.9.9")
	must(c, os.Rename(dir+"/bk", dir+"/gone"), "rename")
	p.signal([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[k%2])
	if !p.wait(60 * time.Second) {
		p.signal(syscall.SIGQUIT)
		p.wait(5 * time.Second)
		fail("the tracker does not exit when its database cannot be written")
		return
	}
	written("at the end while the database cannot be written")
	c.Eval(fmt.Sprint("failing", k))
}

// b05during: a save signal that comes while a save is in progress is about
// what was acknowledged before it, too.
func b05during(c *Ctx, bin string, k int) {
	r := c.Rand(fmt.Sprint("B05/during", k))
	dir := scratch(c, fmt.Sprint("b05-during-", k))
	path := dir + "/backup.db"
	config.Config.DB.Backup.Path = path
	m, _ := b03model(int64(k), 60000)
	db := &gomap.Memory{}
	must(c, db.Init(&gomap.FileBackup{}), "database")
	m.into(db)
	start := time.Now()
	must(c, db.Backup().Save(), "big backup")
	took := time.Since(start)
	dropAll(db, m)
	up, hp := freePort(c), freePort(c)
	p := launch(c, bin, dir, defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path, "db.expiry", "1000000h"), []string{"execute"})
	if !p.ready(true, true) {
		c.Violate(lastBytes(p.log(), 3000), "the tracker does not start from a large backup")
		return
	}
	defer p.kill()
	hc := hclient{"127.0.0.1", hp}
	for n := 0; n < 12; n++ {
		p.signal(syscall.SIGUSR1)
		time.Sleep(time.Duration(r.Int63n(int64(took) + 1)))
		id := PeerID{0xd0, byte(k), byte(n)}
		h := Hash{0xd0, byte(n % 3)}
		if a, err := hc.announce(hannc{Hash: h, ID: id, Left: "1", Port: fmt.Sprint(1000 + n)}); err != nil || a.Failure != "" {
			c.Violate(lastBytes(p.log(), 2000), "an announce beside a save is answered with %v, %v", a.Failure, err)
			return
		}
		p.signal(syscall.SIGUSR1)
		found := false
		for end := time.Now().Add(60 * time.Second); !found && time.Now().Before(end) && !p.exited(); time.Sleep(20 * time.Millisecond) {
			b, err := os.ReadFile(path)
			found = err == nil && bytes.Contains(b, id[:])
		}
		if !found {
			c.Violate(lastBytes(p.log(), 2000), "a peer announced before a save signal that came while a save was in progress is not written")
			return
		}
		c.Count("signals_during_a_save", 1)
	}
	p.stop("tracker")
	c.Eval(fmt.Sprint("during", k))
}

func b05round(c *Ctx, bin string, round int) {
	r := c.Rand(fmt.Sprint("B05/", round))
	dir := scratch(c, fmt.Sprint("b05-", round))
	path := dir + "/backup.db"
	up, hp := freePort(c), freePort(c)
	cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path, "numwant.limit", "2000", "udp.threads", fmt.Sprint(1+r.Intn(4)), "expvarinterval", []string{"0s", "100ms"}[r.Intn(2)])
	periodic := r.Intn(3) == 0
	if periodic {
		cfg = cfg.with("db.backup.frequency", "20ms", "db.trim", "50ms")
	}
	args := []string{"execute"}
	first := cfg
	if round%4 == 1 { // ids are checked only after the restart
		first = cfg.with("udp.conndb.validate", "false")
	}
	p := launch(c, bin, dir, first, args)
	if !p.ready(true, true) {
		c.Violate(lastBytes(p.log(), 3000), "the tracker does not start")
		return
	}
	var clients []*b05client
	var peers []*b05peer
	for i := 0; i < 5; i++ {
		ip := []string{"127.0.0.1", "127.0.7.2", "::1", "127.9.9.9", "127.0.0.1"}[i]
		u, err := newUClient(ip, up)
		must(c, err, "client")
		defer u.close()
		if err := u.connect(); err != nil {
			c.Violate(nil, "connect: %v", err)
			return
		}
		cl := &b05client{u: u, http: hclient{ip, hp}, ip: ip}
		for k := 0; k < 6; k++ {
			q := &b05peer{h: Hash{byte(k % 3), 0xb5, byte(round)}}
			r.Read(q.id[:])
			q.id[0] = byte(i)
			cl.peers = append(cl.peers, q)
			peers = append(peers, q)
		}
		clients = append(clients, cl)
	}
	traffic := func(n int, over *atomic.Bool) *sync.WaitGroup {
		var wg sync.WaitGroup
		for i, cl := range clients {
			wg.Add(1)
			seed := r.Int63() + int64(i)
			go func() { defer wg.Done(); cl.run(rand.New(rand.NewSource(seed)), n, over) }()
		}
		return &wg
	}
	var never atomic.Bool
	traffic(15, &never).Wait()
	busy := round%2 == 1
	var over atomic.Bool
	var wg *sync.WaitGroup
	if busy {
		wg = traffic(1<<30, &over)
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	}
	finish := func() {
		over.Store(true)
		if wg != nil {
			wg.Wait()
		}
	}
	detail := map[string]any{"round": round, "busy": busy}
	fail := func(f string, a ...any) { detail["log"] = lastBytes(p.log(), 2000); c.Violate(detail, f, a...) }
	load := func() (*gomap.Memory, error) {
		// the running tracker replaces the file, a copy stays as it is
		b, err := os.ReadFile(path)
		if err != nil {
			return nil, err
		}
		os.WriteFile(path+".judged", b, 0644)
		return openFile(path + ".judged")
	}
	honoured := func(cls []*b05client) string {
		for _, cl := range cls {
			tx, refused := cl.u.next(), 0
			cl.u.conn.Write(pkScrape(cl.u.cid, tx, []Hash{{0, 0xb5, byte(round)}}))
			for {
				raw, err := cl.u.recv(30 * time.Second)
				if errors.Is(err, syscall.ECONNREFUSED) && refused < 3 {
					refused++ // something sent before the restart
					cl.u.conn.Write(pkScrape(cl.u.cid, tx, []Hash{{0, 0xb5, byte(round)}}))
					continue
				}
				if err != nil {
					return fmt.Sprintf("%v: %v", cl.u.addr, err)
				}
				d, err := decodeUAnswer(raw, false)
				if err != nil || d.Tx != tx {
					continue // an answer of before
				}
				if d.Action != 2 {
					return fmt.Sprintf("%v: action %d %q", cl.u.addr, d.Action, d.Err)
				}
				break
			}
			c.Count("ids_honoured_after_restart", 1)
		}
		return ""
	}
	restart := func(dir string) *proc {
		q := launch(c, bin, dir, cfg, args)
		if !q.ready(true, true) {
			fail("the tracker does not start again: %s", lastBytes(q.log(), 2000))
			return nil
		}
		return q
	}
	kind := (round / 2) % 6
	var signalled []byte // what the save signal wrote under traffic
	var signalledAt int64
	if kind >= 4 || r.Intn(4) == 0 { // the save signal first
		at := clock()
		p.signal(syscall.SIGUSR1)
		c.Count("save_signals", 1)
		end := time.Now().Add(60 * time.Second)
		problem := "nothing is written"
		for problem != "" && time.Now().Before(end) && !p.exited() {
			time.Sleep(20 * time.Millisecond)
			if db, err := load(); err == nil {
				if busy { // operations go on; judged when they are known
					problem = ""
					if !periodic {
						signalled, _ = os.ReadFile(path)
						signalledAt = at
					}
				} else {
					problem = b05judge(c, db, peers, at)
				}
			} else {
				problem = err.Error()
			}
		}
		if p.exited() {
			fail("the tracker exits after a save signal")
			finish()
			return
		}
		if problem != "" {
			fail("after a save signal: %s", problem)
		}
		if d := func() string {
			if busy {
				return ""
			}
			return honoured(clients)
		}(); d != "" {
			fail("after a save signal the tracker does not serve: %s", d)
		}
		if !busy {
			// what was written serves a tracker started on a copy
			ok := ""
			for i := 0; i < 40; i++ {
				ok = b05copy(c, bin, dir, fmt.Sprint("copy", i), cfg, clients, up)
				if ok == "" {
					break
				}
				time.Sleep(100 * time.Millisecond)
			}
			if ok != "" {
				fail("connection ids after a save signal and a crash: %s", ok)
			}
			traffic(5, &never).Wait()
		}
	}
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.Intn(2)]
	at := clock()
	switch r.Intn(4) {
	case 0: // save signals in the way of the exit
		for k := 1 + r.Intn(3); k > 0; k-- {
			p.signal(syscall.SIGUSR1)
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
		at = clock()
		p.signal(sig)
		c.Count("exit_after_save_signals", 1)
	case 1:
		p.signal(sig)
		p.signal(syscall.SIGINT)
	default:
		p.signal(sig)
	}
	if !p.wait(60 * time.Second) {
		p.signal(syscall.SIGQUIT)
		p.wait(5 * time.Second)
		finish()
		fail("the tracker does not exit after %v", sig)
		p.kill()
		return
	}
	finish()
	c.Count("exits", 1)
	if p.code() != 0 {
		fail("exit status %d after %v (%v)", p.code(), sig, p.cmd.ProcessState)
	}
	if x := p.crash(); x != "" {
		fail("crash: %.300s", x)
	}
	if signalled != nil {
		os.WriteFile(path+".signalled", signalled, 0644)
		db, err := openFile(path + ".signalled")
		if err != nil {
			fail("the backup written at a save signal under traffic cannot be loaded: %v", err)
			return
		}
		if d := b05judge(c, db, peers, signalledAt); d != "" {
			fail("after a save signal under traffic: %s", d)
			return
		}
		c.Count("save_signals_under_traffic_judged", 1)
	}
	db, err := load()
	if err != nil {
		fail("after %v the backup cannot be loaded: %v", sig, err)
		return
	}
	if d := b05judge(c, db, peers, at); d != "" {
		fail("after %v: %s", sig, d)
		return
	}
	c.Eval(fmt.Sprint(round, sig, busy, kind))
	q := restart(dir)
	if q == nil {
		return
	}
	if d := honoured(clients); d != "" {
		fail("after a restart a connection id is not honoured: %s", d)
	}
	// and the announces are there
	ls, _, _, err := askPeers(hp, Hash{0, 0xb5, byte(round)})
	want, _ := peerList(db, Hash{0, 0xb5, byte(round)}, 1<<20, false) // of the file as it was before the restart
	if err != nil || len(ls) != len(want) {
		fail("the restarted tracker lists %d peers, the backup has %d (%v)", len(ls), len(want), err)
	}
	q.stop("restarted tracker")
}

// b05copy starts a tracker on a copy of what is written at this moment, and
// asks it whether the clients' ids are known.
func b05copy(c *Ctx, bin, dir, name string, cfg pcfg, clients []*b05client, home int) string {
	d := scratch(c, filepath.Base(dir)+name)
	defer os.RemoveAll(d)
	os.MkdirAll(d+"/home", 0755)
	if out, err := exec.Command("cp", "-a", dir+"/home", d).CombinedOutput(); err != nil {
		return string(out)
	}
	up, hp := freePort(c), freePort(c)
	q := launch(c, bin, d, cfg.with("udp.port", fmt.Sprint(up), "http.port", fmt.Sprint(hp), "db.backup.type", "none"), []string{"execute"})
	if !q.ready(true, true) {
		return "it does not start: " + lastBytes(q.log(), 1000)
	}
	defer q.kill()
	for _, cl := range clients {
		// same source, other tracker
		la := cl.u.conn.LocalAddr().String()
		cl.u.conn.Close()
		var err error
		if cl.u, err = rebind(cl.u, cl.ip, up); err != nil {
			c.Inconclusive("client %s: %v", la, err)
		}
	}
	bad := ""
	for _, cl := range clients {
		tx := cl.u.next()
		cl.u.conn.Write(pkScrape(cl.u.cid, tx, []Hash{{1}}))
		raw, err := cl.u.recv(30 * time.Second)
		if err != nil || len(raw) < 8 || raw[3] != 2 {
			bad = fmt.Sprintf("%v: %x %v", cl.u.addr, raw, err)
		}
		c.Count("ids_honoured_after_a_crash", 1)
	}
	for _, cl := range clients {
		cl.u.conn.Close()
		var err error
		if cl.u, err = rebind(cl.u, cl.ip, home); err != nil {
			c.Inconclusive("client: %v", err)
		}
	}
	return bad
}

// rebind makes a client with the source address and id of a closed one.
func rebind(u *uclient, ip string, port int) (*uclient, error) {
	host := "127.0.0.1"
	if u.addr.Addr().Is6() {
		host = "::1"
	}
	var err error
	for i := 0; i < 50; i++ {
		var conn *net.UDPConn
		conn, err = net.DialUDP("udp", net.UDPAddrFromAddrPort(u.addr), &net.UDPAddr{IP: net.ParseIP(host), Port: port})
		if err == nil {
			conn.SetReadBuffer(4 << 20)
			return &uclient{conn: conn, addr: u.addr, cid: u.cid, txid: u.txid}, nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	return nil, err
}
