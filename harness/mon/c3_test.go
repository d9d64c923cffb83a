package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() { register("C03", monC03) }

// c03script asks everything there is to ask, one request at a time, and returns
// what was answered, in a form that does not depend on chance.
type c03script struct {
	c      *Ctx
	p      *proc
	r      *rand.Rand
	out    []string
	us     []*uclient
	hc     []hclient
	hashes []Hash
}

func (s *c03script) note(what string, f string, a ...any) {
	s.out = append(s.out, what+" -> "+fmt.Sprintf(f, a...))
}

func sortedPeers(l []listed) string {
	var t []string
	for _, p := range l {
		t = append(t, fmt.Sprintf("%v:%d:%x", p.IP, p.Port, p.ID))
	}
	sort.Strings(t)
	return strings.Join(t, " ")
}

func (s *c03script) udp(u *uclient, what string, b []byte) {
	got, err := u.rpc(b)
	if err != nil {
		s.note(what, "%v", err)
		return
	}
	switch {
	case len(got) == 16 && binary.BigEndian.Uint32(got) == 0:
		u.cid = int64(binary.BigEndian.Uint64(got[8:]))
		s.note(what, "connected %x", got[4:8])
	case len(got) >= 20 && binary.BigEndian.Uint32(got) == 1:
		a, err := decodeUAnswer(got, u.addr.Addr().Is6())
		s.note(what, "%x interval %d, %d/%d, %s %v", a.Tx, a.Interval, a.Seeders, a.Leechers, sortedPeers(a.Peers), err)
	default:
		s.note(what, "%q", got)
	}
}

// errors about a datagram need not name its transaction if it has none
func (s *c03script) odd(u *uclient, what string, b []byte) {
	if _, err := u.conn.Write(b); err != nil {
		s.note(what, "%v", err)
		return
	}
	got, err := u.recv(60 * time.Second)
	s.note(what, "%q %v", got, err)
}

func (s *c03script) http(h hclient, what, target string) {
	raw, err := h.raw([]byte("GET " + target + " HTTP/1.1\r\nHost: t\r\n\r\n"))
	if err != nil {
		s.note(what, "%v", err)
		return
	}
	if a, err := decodeHAnnounce(raw); err == nil && a.Failure == "" && len(a.Body) > 0 && strings.HasPrefix(target, "/announce") {
		s.note(what, "interval %d, %d/%d, list %v, %s, %s, %s", a.Interval, a.Complete, a.Incompl, a.IsList, sortedPeers(a.Peers), sortedPeers(a.Compact4), sortedPeers(a.Compact6))
		return
	}
	if strings.HasPrefix(target, "/scrape") {
		if f, fail, err := decodeHScrape(raw); err == nil {
			s.note(what, "%v %s", f, fail)
			return
		}
	}
	if len(raw) > 3000 {
		raw = []byte(fmt.Sprintf("%d bytes, %x", len(raw), hash64(raw)))
	}
	s.note(what, "%q", raw)
}

func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func (s *c03script) run(n int) {
	r := s.r
	id := func() PeerID { return PeerID{0xc3, byte(r.Intn(12))} }
	for i := 0; i < n; i++ {
		h := s.hashes[r.Intn(len(s.hashes))]
		u := s.us[r.Intn(len(s.us))]
		hc := s.hc[r.Intn(len(s.hc))]
		tx := r.Uint32()
		switch r.Intn(12) {
		case 0:
			s.udp(u, "connect", pkConnect(tx))
		case 1, 2, 3:
			a := annc{Hash: h, ID: id(), Left: int64(r.Intn(2)), Event: uint32(r.Intn(4)), NumWant: -1, Port: uint16(1 + r.Intn(65535))}
			s.udp(u, "UDP announce", pkAnnounce(u.cid, tx, a))
		case 4:
			s.udp(u, "UDP scrape", pkScrape(u.cid, tx, s.hashes[:1+r.Intn(len(s.hashes))]))
		case 5: // refused
			switch r.Intn(5) {
			case 0:
				s.udp(u, "UDP announce with a wrong id", pkAnnounce(u.cid^1, tx, annc{Hash: h, ID: id(), Port: 4}))
			case 1:
				s.udp(u, "UDP scrape with a wrong id", pkScrape(u.cid^2, tx, s.hashes))
			case 2:
				s.udp(u, "UDP announce without port", pkAnnounce(u.cid, tx, annc{Hash: h, ID: id()}))
			case 3:
				b := pkAnnounce(u.cid, tx, annc{Hash: h, ID: id(), Port: 4})
				binary.BigEndian.PutUint32(b[8:], 4+r.Uint32()%100)
				s.odd(u, "unknown action", b)
			default:
				s.odd(u, "short announce", pkAnnounce(u.cid, tx, annc{Hash: h, ID: id(), Port: 4})[:60+r.Intn(30)])
			}
		case 6, 7, 8:
			a := hannc{Hash: h, ID: id(), Left: fmt.Sprint(r.Intn(2)), Port: fmt.Sprint(1 + r.Intn(65535)), Event: []string{"", "started", "stopped", "completed"}[r.Intn(4)], Compact: r.Intn(2) == 0, NoID: r.Intn(2) == 0}
			s.http(hc, "HTTP announce", "/announce?"+a.query())
		case 9:
			s.http(hc, "HTTP scrape", "/scrape?info_hash="+esc(h[:])+"&info_hash="+esc(s.hashes[0][:]))
		case 10: // refused
			a := hannc{Hash: h, ID: id(), Left: "1", Port: "3"}
			t := []string{"/announce?" + a.query()[3:], "/announce", "/announce?info_hash=%zz", "/scrape?info_hash=12", "/announce?" + a.query() + "&port=70000", "/announce?" + a.query() + "&numwant=x"}[r.Intn(6)]
			s.http(hc, "refused HTTP request", t)
		default:
			s.http(hc, "page", []string{"/", "/heartbeat", "/nothing", "/index.html", "/dmca.html", "/trakx.yaml"}[r.Intn(6)])
		}
	}
}

// cpu is the processor time used by a process.
func cpu(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	var u, s int64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &s)
	return time.Duration(u+s) * 10 * time.Millisecond
}

var logLine = regexp.MustCompile(`(?m)^\d{4}-\d\d-\d\dT[^\t\n]*\t(?:\x1b\[\d+m)?(DEBUG|INFO|WARN|ERROR|DPANIC|PANIC|FATAL)`)

var logRank = map[string]int{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3, "DPANIC": 4, "PANIC": 5, "FATAL": 6}

func monC03(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	for round := 0; round < c.Scale && !c.TooMany(); round++ {
		c03round(c, bin, round)
	}
}

func c03round(c *Ctx, bin string, round int) {
	r := c.Rand(fmt.Sprint("C03/", round))
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	hashes := similarHashes(r, 4)
	var first []string
	var firstCfg string
	levels := []string{"debug", "fatal", "error", "warn", "info", "chatty", "DEBUG", "Error"}
	r.Shuffle(len(levels), func(i, j int) { levels[i], levels[j] = levels[j], levels[i] })
	for k, level := range levels {
		dir := scratch(c, fmt.Sprintf("c03-%d-%d", round, k))
		must(c, os.Mkdir(dir+"/bk", 0755), "directory")
		up, hp := freePort(c), freePort(c)
		kv := []string{"loglevel", level, "expvarinterval", pick("0s", "1s", "40ms", "-1s"), "http.threads", pick("1", "2", "16", "512"), "udp.threads", pick("1", "2", "8", "512"),
			"udp.conndb.size", pick("0", "1", "5000"), "udp.conndb.trim", pick("0s", "0s", "-3s", "1h", "50ms"), "db.trim", pick("0s", "-1s", "1h", "50ms"),
			"db.backup.frequency", pick("0s", "0s", "-2s", "1000h"), "db.backup.type", "file", "db.backup.path", dir + "/bk/db", "debug.pprof", "0"}
		if r.Intn(2) == 0 {
			kv[len(kv)-1] = fmt.Sprint(freePort(c))
		}
		cfg := defaultPcfg(up, hp).with(kv...)
		p := launch(c, bin, dir, cfg, []string{"execute"})
		name := strings.Join(kv[:len(kv)-6], " ")
		fail := func(f string, a ...any) {
			c.Violate(map[string]any{"settings": kv, "others": firstCfg, "log": lastBytes(p.log(), 2000)}, f, a...)
		}
		if !p.serves(true, true) {
			fail("the tracker does not start, or does not answer within a minute")
			p.kill()
			continue
		}
		skip := len(p.log())
		s := &c03script{c: c, p: p, r: rand.New(rand.NewSource(c.Seed<<20 + int64(round))), hashes: hashes,
			hc: []hclient{{"127.0.0.1", hp}, {"127.3.0.9", hp}, {"::1", hp}}}
		for _, ip := range []string{"127.0.0.1", "127.3.0.3", "::1"} {
			u, err := newUClient(ip, up)
			must(c, err, "client")
			defer u.close()
			if err := u.connect(); err != nil {
				fail("connect: %v", err)
			}
			s.us = append(s.us, u)
		}
		s.run(300)
		c.Count("answers_compared", len(s.out))
		if first == nil {
			first, firstCfg = s.out, name
		}
		for i, l := range s.out {
			if l != first[i] {
				fail("with other settings the same requests are answered differently: request %d, %.300s, before %.300s", i, l, first[i])
				break
			}
		}
		// idle
		if before := cpu(p.cmd.Process.Pid); before >= 0 {
			time.Sleep(1500 * time.Millisecond)
			if used := cpu(p.cmd.Process.Pid) - before; used > 600*time.Millisecond {
				fail("an idle tracker uses %v of processor time in 1.5 s", used)
			}
			c.Count("idle_trackers", 1)
		}
		// a save, a failing save, the end
		p.signal(syscall.SIGUSR1)
		want := -1
		for end := time.Now().Add(60 * time.Second); want < 0 && time.Now().Before(end) && !p.exited(); time.Sleep(5 * time.Millisecond) {
			if b, err := os.ReadFile(dir + "/bk/db"); err == nil {
				os.WriteFile(dir+"/judged", b, 0644)
				if db, err := openFile(dir + "/judged"); err == nil {
					want = 0
					for _, h := range hashes {
						se, le := counts(db, h)
						f, err := s.hc[0].scrape([]Hash{h})
						if err != nil || f[h] != [2]int64{se, le} {
							fail("after a save signal %d/%d peers are in the file, the tracker says %v %v", se, le, f[h], err)
						}
					}
				}
			}
		}
		if want < 0 {
			fail("nothing is saved at a save signal")
		}
		for _, m := range logLine.FindAllStringSubmatch(p.log()[skip:], -1) {
			if logRank[m[1]] >= 3 {
				fail("an error is logged although nothing but clients' requests failed: %q", m[0])
				break
			}
		}
		must(c, os.Rename(dir+"/bk", dir+"/gone"), "rename")
		rank, ok := map[string]int{"debug": 0, "info": 1, "warn": 2, "error": 3, "fatal": 6}[strings.ToLower(level)]
		if !ok {
			rank = 2
		}
		p.signal(syscall.SIGUSR1)
		if rank <= 3 {
			found := false
			for end := time.Now().Add(30 * time.Second); !found && time.Now().Before(end) && !p.exited(); time.Sleep(5 * time.Millisecond) {
				for _, m := range logLine.FindAllStringSubmatch(p.log()[skip:], -1) {
					found = found || logRank[m[1]] >= 3
				}
			}
			if !found {
				fail("at log level %q nothing is logged about a save that fails", level)
			}
		} else {
			time.Sleep(300 * time.Millisecond)
		}
		if _, err := s.hc[0].scrape(hashes); err != nil && !p.exited() {
			fail("after a save that failed: %v", err)
		}
		must(c, os.Rename(dir+"/gone", dir+"/bk"), "rename")
		p.stop(name)
		seen := map[string]int{}
		for _, m := range logLine.FindAllStringSubmatch(p.log()[skip:], -1) {
			seen[m[1]]++
			c.Count("log_lines", 1)
		}
		for l, n := range seen {
			if logRank[l] < rank {
				fail("at log level %q %d lines of level %s are written", level, n, l)
			}
		}
		if rank == 0 && !strings.Contains(p.log(), "DEBUG") || rank <= 1 && seen["INFO"] == 0 {
			fail("at log level %q nothing but %v is written about refused requests, signals and the end", level, seen)
		}
		c.Count("settings", 1)
		c.Eval(name)
		if k == 0 && round == 0 {
			c.Sample(map[string]any{"settings": kv, "answers": s.out[:8], "log_lines": seen})
		}
	}
}
