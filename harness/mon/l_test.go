package mon

import (
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
)

func init() {
	register("L01", monL01)
	register("S09", monS09)
}

// ---- L01: nobody waits for the slow

func monL01(c *Ctx) {
	l01clients(c)
	if !c.Violated() {
		l01postgres(c)
	}
	if !c.Violated() {
		l01flood(c)
	}
	if !c.Violated() {
		l01file(c)
	}
}

// l01clients holds workers with clients that send nothing or read nothing.
func l01clients(c *Ctx) {
	const many = 60000
	config.Config.HTTP.Timeout.Read = 10 * time.Minute
	config.Config.HTTP.Timeout.Write = 10 * time.Minute
	config.Config.Numwant.Limit = many
	initPools(many)
	r := c.Rand("L01")
	big := Hash{0x42}
	db := newDB(c)
	for i := 0; i < many; i++ {
		db.Save(netip.AddrFrom16([16]byte{0x20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, byte(i >> 16), byte(i >> 8), byte(i), 1}), 65535, true, big, PeerID{byte(i), byte(i >> 8), byte(i >> 16)})
	}
	for round := 0; round < 6*c.Scale && !c.TooMany(); round++ {
		threads := 1 + r.Intn(8)
		config.Config.HTTP.Threads = threads
		config.Config.UDP.Threads = 1 + r.Intn(2)
		s := startServers(c, db, true, true)
		var slow []net.Conn
		var gone atomic.Int32
		held := 0
		hold := func(kind int) {
			d := net.Dialer{Control: smallReceiveBuffer}
			conn, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.httpPort))
			must(c, err, "dial")
			slow = append(slow, conn)
			switch kind {
			case 0: // sends nothing
				go func() {
					b := make([]byte, 1)
					conn.SetReadDeadline(time.Now().Add(9 * time.Minute))
					if _, err := conn.Read(b); err != nil && !os.IsTimeout(err) && !strings.Contains(err.Error(), "use of closed") {
						gone.Add(1)
					}
				}()
			case 1: // reads nothing of its answer
				conn.Write([]byte("GET /announce?" + hannc{Hash: big, ID: PeerID{0xff, 0xff, 0xff}, Port: "5", Left: "1", NumWant: fmt.Sprint(many)}.query() + " HTTP/1.1\r\n\r\n"))
			}
			held++
		}
		detail := map[string]any{"threads": threads}
		ask := func(n int) {
			hc := hclient{"", s.httpPort}
			u, err := newUClient("127.0.0.1", s.udpPort)
			must(c, err, "client")
			defer u.close()
			for i := 0; i < n; i++ {
				t := time.Now()
				if held < threads {
					conn, err := hc.dial()
					must(c, err, "dial")
					conn.SetDeadline(time.Now().Add(60 * time.Second))
					conn.Write([]byte("GET /announce?" + hannc{Hash: Hash{byte(i)}, ID: PeerID{byte(i)}, Port: "5", Left: "1"}.query() + " HTTP/1.1\r\n\r\n"))
					b := make([]byte, 12)
					k, err := conn.Read(b)
					conn.Close()
					if err != nil || !strings.HasPrefix(string(b[:k]), "HTTP/1.1 200") {
						detail["held"] = held
						c.Violate(detail, "%d of %d workers are held by slow clients and another client waits for %v and gets %q, %v", held, threads, time.Since(t), b[:k], err)
						return
					}
					c.Count("http_answers_beside_slow_clients", 1)
				}
				if err := u.connect(); err != nil {
					detail["held"] = held
					c.Violate(detail, "%d slow HTTP clients and a UDP client waits for %v: %v", held, time.Since(t), err)
					return
				}
				a, err := u.announce(annc{Hash: Hash{byte(i)}, ID: PeerID{byte(i), 1}, Left: 1, Port: 6})
				if err != nil || a.Action != 1 {
					c.Violate(detail, "%d slow HTTP clients and a UDP announce gets %v, %v", held, a, err)
					return
				}
				c.Count("udp_answers_beside_slow_clients", 1)
			}
		}
		ask(2)
		for held < threads-1 {
			hold(r.Intn(2))
			ask(2)
		}
		ask(10)
		hold(0)
		for i := 0; i < 3; i++ {
			hold(r.Intn(2)) // waiting for a worker
		}
		ask(10) // UDP only
		if gone.Load() > 0 {
			c.Inconclusive("%d slow clients were disconnected before their time", gone.Load())
		}
		for _, conn := range slow {
			conn.Close()
		}
		held = 0
		ask(3) // and all workers are back
		s.stop()
		c.Count("slow_clients", len(slow))
		c.Eval(fmt.Sprint("clients", threads, len(slow)))
	}
	config.Config.Numwant.Limit = 200
	initPools(200)
}

// l01flood has more clients than a tracker may open files.
func l01flood(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	for round := 0; round < 2*c.Scale && !c.Violated(); round++ {
		dir := scratch(c, fmt.Sprint("l01flood-", round))
		up, hp := freePort(c), freePort(c)
		files := 24 + c.Rand("L01/flood/"+fmt.Sprint(round)).Intn(40)
		threads := files + 10
		path := dir + "/backup.db"
		cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path, "http.threads", fmt.Sprint(threads),
			"http.timeout.read", "10m", "http.timeout.write", "10m", "loglevel", "fatal")
		p := launch(c, "/bin/sh", dir, cfg, []string{"-c", fmt.Sprintf("ulimit -n %d; exec \"$0\" execute", files), bin})
		if !p.ready(true, true) {
			c.Inconclusive("the tracker does not start with %d files: %s", files, lastBytes(p.log(), 2000))
		}
		detail := map[string]any{"files": files, "threads": threads}
		var slow []net.Conn
		for i := 0; i < files+20; i++ {
			conn, err := hclient{"", hp}.dial()
			must(c, err, "dial")
			slow = append(slow, conn)
		}
		// until no more are accepted
		last := -1
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
			n, _ := openFDs(fmt.Sprint(p.cmd.Process.Pid))
			if n == last && n >= files {
				break
			}
			last = n
		}
		if last >= files {
			c.Count("floods_that_used_up_all_files", 1)
		}
		u, err := newUClient("127.0.0.1", up)
		must(c, err, "client")
		if err := u.connect(); err != nil {
			c.Violate(detail, "more HTTP clients than open files are allowed and UDP is not served: %v", err)
		}
		for _, conn := range slow {
			conn.Close()
		}
		// all workers serve: as many connections at once as there are files for
		if !p.serves(true, true) {
			c.Violate(detail, "after more HTTP clients than open files the tracker does not answer any more: %s", lastBytes(p.log(), 1000))
		}
		var held []net.Conn
		for i := 0; i < files/2 && !c.Violated(); i++ {
			conn, err := hclient{"", hp}.dial()
			must(c, err, "dial")
			held = append(held, conn) // a worker waits for it
			conn, err = hclient{"", hp}.dial()
			must(c, err, "dial")
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			conn.Write([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"))
			b := make([]byte, 12)
			if k, err := conn.Read(b); err != nil || string(b[:k]) != "HTTP/1.1 200" {
				c.Violate(detail, "after more HTTP clients than open files %d of %d workers are held and another client gets %q, %v", len(held), threads, b[:k], err)
			}
			conn.Close()
			c.Count("http_answers_after_a_flood", 1)
		}
		for _, conn := range held {
			conn.Close()
		}
		u.close()
		p.signal(syscall.SIGTERM)
		if !p.wait(30 * time.Second) {
			c.Violate(detail, "a tracker that was flooded does not end")
			p.kill()
		}
		if _, err := os.Stat(path); err != nil && !c.Violated() {
			c.Violate(detail, "a tracker that was flooded wrote no backup: %v", err)
		}
		c.Eval(fmt.Sprint("flood", files))
	}
	for round := 0; round < 3*c.Scale && !c.Violated(); round++ {
		l01nofiles(c, bin, round)
	}
}

// l01nofiles lets a tracker run out of files while clients come, for a while.
func l01nofiles(c *Ctx, bin string, round int) {
	r := c.Rand(fmt.Sprint("L01/nofiles/", round))
	dir := scratch(c, fmt.Sprint("l01nofiles-", round))
	up, hp := freePort(c), freePort(c)
	threads := 1 + r.Intn(6)
	cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", dir+"/backup.db", "http.threads", fmt.Sprint(threads),
		"http.timeout.read", "10m", "http.timeout.write", "10m", "loglevel", "fatal")
	p := launch(c, bin, dir, cfg, args(""))
	if !p.ready(true, true) {
		c.Inconclusive("the tracker does not start: %s", lastBytes(p.log(), 2000))
	}
	pid := p.cmd.Process.Pid
	limit := func(n uint64) {
		l := syscall.Rlimit{Cur: n, Max: 4096}
		_, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&l)), 0, 0, 0)
		if e != 0 {
			c.Inconclusive("limits of a child cannot be set: %v", e)
		}
	}
	free := uint64(0) // the lowest descriptor that is not in use
	for ; ; free++ {
		if _, err := os.Lstat(fmt.Sprintf("/proc/%d/fd/%d", pid, free)); err != nil {
			break
		}
	}
	detail := map[string]any{"threads": threads, "files": free}
	n0, _ := openFDs(fmt.Sprint(pid))
	limit(free)
	var waiting []net.Conn
	for i := 0; i < 3*threads; i++ {
		conn, err := hclient{"", hp}.dial()
		must(c, err, "dial")
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		waiting = append(waiting, conn)
		if i%2 == 0 {
			conn.Write([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"))
		}
	}
	u, err := newUClient("127.0.0.1", up)
	must(c, err, "client")
	for i := 0; i < 5; i++ {
		if err := u.connect(); err != nil {
			c.Violate(detail, "UDP is not served while no more files can be opened: %v", err)
			break
		}
		if _, err := u.announce(annc{Hash: Hash{byte(i)}, ID: PeerID{1}, Port: 5, Left: 1}); err != nil {
			c.Violate(detail, "UDP is not served while no more files can be opened: %v", err)
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	u.close()
	if n, _ := openFDs(fmt.Sprint(pid)); n <= n0 {
		c.Count("times_without_files", 1)
	}
	if p.exited() {
		c.Violate(detail, "the tracker ended when no more files could be opened: %s", lastBytes(p.log(), 1000))
		return
	}
	limit(1024)
	// those who waited are served, or at least let go
	for i, conn := range waiting {
		if c.Violated() {
			conn.Close()
			continue
		}
		if i%2 == 0 {
			b := make([]byte, 12)
			if k, err := conn.Read(b); err != nil && os.IsTimeout(err) {
				c.Violate(detail, "a client that came while no more files could be opened is not served in a minute: %q %v", b[:k], err)
				break
			}
		}
		conn.Close()
	}
	// all workers are there: all but one are held
	var held []net.Conn
	for i := 0; i < threads && !c.Violated(); i++ {
		conn, err := hclient{"", hp}.dial()
		must(c, err, "dial")
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		conn.Write([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"))
		b := make([]byte, 12)
		if k, err := conn.Read(b); err != nil || string(b[:k]) != "HTTP/1.1 200" {
			c.Violate(detail, "after a time without files %d of %d workers are held and another client gets %q, %v", i, threads, b[:k], err)
		}
		conn.Close()
		c.Count("http_answers_after_a_time_without_files", 1)
		conn, err = hclient{"", hp}.dial()
		must(c, err, "dial")
		held = append(held, conn)
	}
	for _, conn := range held {
		conn.Close()
	}
	p.signal(syscall.SIGTERM)
	if !p.wait(60 * time.Second) {
		c.Violate(detail, "a tracker that ran out of files for a while does not end")
		p.kill()
	} else if _, err := os.Stat(dir + "/backup.db"); err != nil && !c.Violated() {
		c.Violate(detail, "a tracker that ran out of files for a while wrote no backup: %v", err)
	}
	c.Eval(fmt.Sprint("nofiles", threads, free))
}

// touch uses a database in every way, on known and new torrents.
func touch(db storage.Database, r *rand.Rand, known []Hash) {
	h := known[r.Intn(len(known))]
	if r.Intn(2) == 0 {
		r.Read(h[:])
	}
	var id PeerID
	r.Read(id[:])
	db.Save(randIP(r), uint16(1+r.Intn(65535)), r.Intn(2) == 0, h, id)
	db.HashStats(h)
	p4, p6 := db.PeerListBytes(h, 20)
	pools.Peerlists4.Put(p4)
	pools.Peerlists6.Put(p6)
	db.Hashes()
	if r.Intn(2) == 0 {
		db.Drop(h, id)
	}
	if r.Intn(10) == 0 {
		db.Trim()
	}
}

// l01postgres has a database server that takes a statement and is silent.
func l01postgres(c *Ctx) {
	r := c.Rand("L01/pg")
	f := newFakePG(c)
	f.limit = 1000000
	for round := 0; round < 4*c.Scale && !c.TooMany(); round++ {
		db, err := openPG(f)
		must(c, err, "opening a Postgres backup")
		hashes := similarHashes(r, 5)
		for i := 0; i < 200; i++ {
			touch(db, r, hashes)
		}
		entered, release := make(chan struct{}), make(chan struct{})
		var once sync.Once
		f.lock(func() {
			f.onInsert = func() { once.Do(func() { close(entered) }); <-release }
		})
		saved := make(chan error, 1)
		go func() { saved <- db.Backup().Save() }()
		select {
		case <-entered:
		case err := <-saved:
			c.Inconclusive("a save ended without an insert: %v", err)
		case <-time.After(60 * time.Second):
			c.Inconclusive("a save does not get to its insert")
		}
		c.l01during("the database server is silent", r, db, hashes)
		close(release)
		select {
		case err := <-saved:
			if err != nil {
				c.Violate(nil, "a save that took long failed: %v", err)
			}
		case <-time.After(60 * time.Second):
			c.Violate(nil, "a save does not end although the server has answered")
		}
		f.lock(func() { f.onInsert = nil })
		c.Count("stalled_saves", 1)
		c.Eval(fmt.Sprint("pg", round))
	}
}

// l01during uses the database while a save cannot go on.
func (c *Ctx) l01during(what string, r *rand.Rand, db storage.Database, hashes []Hash) {
	done := make(chan struct{})
	rr := rand.New(rand.NewSource(r.Int63()))
	go func() {
		for i := 0; i < 400; i++ {
			touch(db, rr, hashes)
			c.Count("operations_beside_a_stalled_save", 1)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Violate(nil, "a save in progress holds up announces: %s, and nothing else goes on", what)
		c.Flush(true)
		os.Exit(0)
	}
}

// l01file slows the disk down with strace while a real tracker saves.
func l01file(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	strace, err := exec.LookPath("strace")
	must(c, err, "strace")
	r := c.Rand("L01/file")
	const slow = 3 * time.Second
	for round := 0; round < c.Scale && !c.TooMany(); round++ {
		dir := scratch(c, fmt.Sprint("l01-", round))
		up, hp := freePort(c), freePort(c)
		path := dir + "/backup.db"
		cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path)
		args := []string{"-f", "-qq", "-o", dir + "/trace", "-P", path, "-P", path + ".tmp",
			"-e", "trace=openat,open,creat,write,pwrite64,fsync,fdatasync,rename,renameat,renameat2",
			"-e", fmt.Sprintf("inject=openat,open,creat,write,pwrite64,fsync,fdatasync,rename,renameat,renameat2:delay_enter=%d", slow.Microseconds()),
			bin, "execute"}
		p := launch(c, strace, dir, cfg, args)
		if !p.ready(true, true) {
			c.Inconclusive("the tracker does not start under strace: %s", lastBytes(p.log(), 2000))
		}
		pid := 0
		if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%d/children", p.cmd.Process.Pid, p.cmd.Process.Pid)); err == nil {
			fmt.Sscan(string(b), &pid)
		}
		if pid == 0 {
			c.Inconclusive("no tracker below strace")
		}
		u, err := newUClient("127.0.0.1", up)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		held := 0
		for try := 0; try < 3; try++ {
			old := int64(0)
			if st, err := os.Stat(path); err == nil {
				old = st.ModTime().UnixNano()
			}
			over := func() bool {
				st, err := os.Stat(path)
				return err == nil && st.ModTime().UnixNano() != old
			}
			syscall.Kill(pid, syscall.SIGUSR1)
			start := time.Now()
			worst := time.Duration(0)
			n := 0
			for !over() && time.Since(start) < 60*time.Second {
				t := time.Now()
				var a annc
				r.Read(a.Hash[:])
				r.Read(a.ID[:])
				a.Port, a.Left = 5, int64(r.Intn(2))
				if _, err := u.announce(a); err != nil {
					c.Violate(nil, "an announce during a slow save is not answered: %v", err)
					break
				}
				if _, err := (hclient{"", hp}).announce(hannc{Hash: a.Hash, ID: PeerID{1}, Port: "5", Left: "1"}); err != nil {
					c.Violate(nil, "an HTTP announce during a slow save is not answered: %v", err)
					break
				}
				worst = max(worst, time.Since(t))
				n++
				time.Sleep(5 * time.Millisecond)
			}
			took := time.Since(start)
			c.Max("max_answer_ms_during_a_slow_save", int(worst.Milliseconds()))
			c.Max("max_slow_save_ms", int(took.Milliseconds()))
			if took >= slow-500*time.Millisecond && took < 60*time.Second {
				c.Count("slow_saves", 1)
				c.Count("announces_during_a_slow_save", 2*n)
				c.Eval(fmt.Sprint("file", round, try))
				if worst >= slow-500*time.Millisecond {
					held++
					continue // thrice is no accident
				}
			}
			break
		}
		if held == 3 {
			c.Violate(nil, "announces wait until a slow save is over")
		}
		u.close()
		syscall.Kill(pid, syscall.SIGKILL)
		p.kill()
	}
}

// ---- S09: every member is handed out

func monS09(c *Ctx) {
	r := c.Rand("S09")
	for round := 0; round < 12*c.Scale && !c.TooMany(); round++ {
		c.bubble(func() { s09round(c, r, round) }) // peers of different ages
	}
}

func s09round(c *Ctx, r *rand.Rand, round int) {
	{
		db := newDB(c)
		h := Hash{byte(round), 9}
		n := 2 + r.Intn([]int{8, 40, 300}[r.Intn(3)])
		peak := n + r.Intn(n+1)
		members := map[string]PeerID{}
		for i := 0; i < peak; i++ {
			var id PeerID
			r.Read(id[:])
			ip := netip.AddrFrom4([4]byte{10, byte(round), byte(i >> 8), byte(i)})
			if i%2 == 1 && r.Intn(3) != 0 {
				ip = netip.AddrFrom16([16]byte{0x20, 1, byte(i >> 8), byte(i), byte(round)})
			}
			if round%4 != 0 {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
			}
			db.Save(ip, uint16(1+i), r.Intn(2) == 0, h, id)
			if i < peak-n {
				db.Drop(h, id)
			} else {
				members[netip.AddrPortFrom(ip, uint16(1+i)).String()] = id
			}
		}
		for _, compact := range []bool{false, true} {
			want := 1 + r.Intn(max(1, n/3))
			seen := map[string]bool{}
			first := ""
			asked := 0
			for asked < 400*peak && len(seen) < len(members) {
				asked++
				var got []string
				if compact {
					l4, l6, err := compactLists(db, h, uint(want))
					must(c, err, "list")
					for _, l := range append(l4, l6...) {
						got = append(got, netip.AddrPortFrom(l.IP, l.Port).String())
					}
				} else {
					ls, err := peerList(db, h, uint(want), false)
					must(c, err, "list")
					for _, l := range ls {
						got = append(got, netip.AddrPortFrom(l.IP, l.Port).String())
					}
				}
				if first == "" {
					first = fmt.Sprint(got)
				}
				for _, g := range got {
					if _, ok := members[g]; !ok {
						c.Violate(nil, "%s is listed and no member", g)
					}
					seen[g] = true
				}
			}
			c.Count("lists", asked)
			c.Count("members_handed_out", len(seen))
			c.Eval(fmt.Sprint(n, peak, want, compact))
			if len(seen) < len(members) {
				c.Violate(map[string]any{"members": n, "wanted": want, "compact": compact, "lists": asked, "first": first},
					"after %d lists of %d peers, %d of %d members have never been handed out", asked, want, len(members)-len(seen), len(members))
			}
		}
		for _, id := range members {
			db.Drop(h, id)
		}
	}
}
