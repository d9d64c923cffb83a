package mon

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("D01", monD01)
	register("D01sentinel", childD01)
}

const nobody = 65534

// spawner starts processes and reaps them and every orphan of theirs, so that
// a daemon is gone once it has exited. Nothing else may wait in this process.
type spawner struct {
	c    *Ctx
	mu   sync.Mutex
	done map[int]syscall.WaitStatus
	uid  bool // may run things as another user
}

func newSpawner(c *Ctx) *spawner {
	const setChildSubreaper = 36
	if _, _, e := syscall.RawSyscall(syscall.SYS_PRCTL, setChildSubreaper, 1, 0); e != 0 {
		c.Inconclusive("not a subreaper: %v", e)
	}
	s := &spawner{c: c, done: map[int]syscall.WaitStatus{}}
	go func() {
		for {
			var ws syscall.WaitStatus
			pid, err := syscall.Wait4(-1, &ws, 0, nil)
			if err != nil {
				time.Sleep(2 * time.Millisecond)
				continue
			}
			s.mu.Lock()
			s.done[pid] = ws
			s.mu.Unlock()
		}
	}()
	return s
}

func (s *spawner) state(pid int) (ws syscall.WaitStatus, ended bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	ws, ended = s.done[pid]
	return
}

// start runs a program; its output goes to the file out.
func (s *spawner) start(argv []string, cwd, out string, env []string, pgid int) int {
	f, err := os.OpenFile(out, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
	must(s.c, err, "output file")
	defer f.Close()
	null, err := os.Open("/dev/null")
	must(s.c, err, "null")
	defer null.Close()
	attr := &syscall.ProcAttr{Dir: cwd, Env: env, Files: []uintptr{null.Fd(), f.Fd(), f.Fd()}, Sys: &syscall.SysProcAttr{Setpgid: true, Pgid: pgid}}
	if s.uid {
		attr.Sys.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}
	}
	pid, err := syscall.ForkExec(argv[0], argv, attr)
	if err != nil {
		must(s.c, err, "starting "+argv[0])
	}
	return pid
}

func (s *spawner) wait(pid int, d time.Duration) (syscall.WaitStatus, bool) {
	for end := time.Now().Add(d); ; time.Sleep(3 * time.Millisecond) {
		ws, ok := s.state(pid)
		if ok || time.Now().After(end) {
			return ws, ok
		}
	}
}

// children lists the running children, orphans included.
func children() (out []int) {
	ents, _ := os.ReadDir("/proc")
	for _, e := range ents {
		pid, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		b, _ := os.ReadFile("/proc/" + e.Name() + "/stat")
		i := strings.LastIndexByte(string(b), ')')
		if i < 0 {
			continue
		}
		f := strings.Fields(string(b[i+1:]))
		if len(f) > 1 && f[1] == fmt.Sprint(os.Getpid()) && f[0] != "Z" {
			out = append(out, pid)
		}
	}
	return
}

// sweep ends every child.
func (s *spawner) sweep() {
	for i := 0; i < 2000; i++ {
		ch := children()
		if len(ch) == 0 {
			return
		}
		for _, p := range ch {
			syscall.Kill(p, syscall.SIGKILL)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// d01 is one installation of the service.
type d01 struct {
	*spawner
	c              *Ctx
	bin, dir, home string
	cwd            string
	cfg            pcfg
	up, hp         int
	pidFile        string
	n              int
	sentinel       int
	sentinelDir    string
	detail         []string
}

// childD01 is the process nobody may signal. It reports signals in a file.
func childD01(c *Ctx) {
	sig := make(chan os.Signal, 16)
	notifyAll(sig)
	dir := os.Getenv("D01_DIR")
	os.WriteFile(dir+"/ready", nil, 0644)
	for s := range sig {
		if s != syscall.SIGURG && s != syscall.SIGCHLD {
			f, _ := os.OpenFile(dir+"/signalled", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
			fmt.Fprintln(f, s)
			f.Close()
		}
	}
}

func newD01(c *Ctx, s *spawner, bin, name string, kv ...string) *d01 {
	d := &d01{spawner: s, c: c, bin: bin, dir: scratch(c, name), up: freePort(c), hp: freePort(c)}
	d.home, d.cwd = d.dir+"/home", d.dir+"/cwd"
	d.pidFile = d.home + "/trakx.pid"
	d.sentinelDir = d.dir + "/sentinel"
	for _, p := range []string{d.home, d.cwd, d.sentinelDir} {
		os.MkdirAll(p, 0755)
		if s.uid {
			os.Chown(p, nobody, nobody)
		}
	}
	os.Chmod(d.dir, 0777)
	// a name of its own tells the trackers of this installation from others
	// (the working directory of another user's process may be unreadable)
	b, err := os.ReadFile(bin)
	must(c, err, "tracker")
	d.bin = d.dir + "/trakx"
	must(c, os.WriteFile(d.bin, b, 0755), "tracker")
	d.cfg = defaultPcfg(d.up, d.hp).with("http.threads", "2", "udp.threads", "1", "db.backup.type", "file", "db.backup.path", d.home+"/db", "loglevel", "error").with(kv...)
	must(c, os.WriteFile(d.cwd+"/trakx.yaml", []byte(d.cfg.yaml()), 0644), "configuration")
	self := os.Getenv("VMON_SELF")
	if self == "" {
		self, _ = os.Executable()
	}
	env := []string{"HOME=" + d.sentinelDir, "VMON=D01sentinel", "VMON_DIR=" + d.sentinelDir, "VMON_OUT=" + d.sentinelDir + "/o", "D01_DIR=" + d.sentinelDir}
	d.sentinel = s.start([]string{self, "-test.run", "^TestMon$", "-test.timeout", "0"}, d.cwd, d.dir+"/sentinel.log", env, 0)
	for i := 0; ; i++ {
		if _, err := os.Stat(d.sentinelDir + "/ready"); err == nil {
			break
		}
		if i > 20000 {
			c.Inconclusive("the sentinel does not start: %s", lastBytes(readString(d.dir+"/sentinel.log"), 1000))
		}
		time.Sleep(3 * time.Millisecond)
	}
	return d
}

func readString(f string) string {
	b, _ := os.ReadFile(f)
	return string(b)
}

func (d *d01) bad(f string, a ...any) {
	d.c.Violate(map[string]any{"commands": d.detail, "daemon log": lastBytes(readString(d.home+"/trakx.log"), 1500)}, f, a...)
}

// run runs a command in the process group of the sentinel.
func (d *d01) run(arg string, within time.Duration) (code int, out string, took time.Duration) {
	d.n++
	of := fmt.Sprintf("%s/out%d", d.dir, d.n)
	start := time.Now()
	pid := d.start([]string{d.bin, arg}, d.cwd, of, []string{"HOME=" + d.home, "PATH=/usr/bin:/bin"}, d.sentinel)
	ws, ended := d.wait(pid, within)
	took = time.Since(start)
	out = readString(of)
	d.c.Count("commands", 1)
	if !ended {
		d.bad("%s has not ended after %v", arg, within)
		syscall.Kill(pid, syscall.SIGKILL)
		d.wait(pid, 10*time.Second)
		return -1, out, took
	}
	code = ws.ExitStatus()
	d.detail = append(d.detail, fmt.Sprintf("%s: exit %d, %v, %.300q", arg, code, took.Round(time.Millisecond), out))
	if i := strings.Index(out, "panic: "); i >= 0 {
		d.bad("%s panics: %.600s", arg, out[i:])
	}
	return
}

// statusOf decodes the three lines of status.
func (d *d01) statusOf() (record, alive, beat bool, ok bool) {
	code, out, _ := d.run("status", 60*time.Second)
	yes := func(s string) (bool, bool) {
		for _, l := range strings.Split(out, "\n") {
			l = strings.ToLower(l)
			if strings.Contains(l, s) && strings.HasPrefix(l, "[") {
				return strings.HasPrefix(l, "[✅]"), strings.HasPrefix(l, "[✅]") || strings.HasPrefix(l, "[❌]")
			}
		}
		return false, false
	}
	record, a := yes("process id file")
	alive, b := yes("process is")
	beat, e := yes("heartbeat")
	ok = a && b && e && code == 0
	if !ok {
		d.bad("status cannot be understood: exit %d, %q", code, out)
	}
	return
}

// expect runs status and compares.
func (d *d01) expect(what string, record, alive, beat bool) {
	r, a, b, ok := d.statusOf()
	if ok && (r != record || a != alive || b != beat) {
		d.bad("%s: status says record %v, alive %v, answering %v; want %v, %v, %v", what, r, a, b, record, alive, beat)
	}
	d.c.Count("status_compared", 1)
}

// daemons lists the running tracker processes of this installation.
func (d *d01) daemons() (out []int) {
	for _, p := range children() {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/cmdline", p))
		f := strings.Split(string(b), "\x00")
		if len(f) > 1 && f[0] == d.bin && f[1] == "execute" {
			out = append(out, p)
		}
	}
	return
}

func (d *d01) recorded() int {
	n, err := strconv.Atoi(strings.TrimSpace(readString(d.pidFile)))
	if err != nil {
		return -1
	}
	return n
}

func (d *d01) answering() bool {
	for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if tryUDP(d.up) {
			return true
		}
	}
	return false
}

func (d *d01) untouched(what string) {
	if s := readString(d.sentinelDir + "/signalled"); s != "" {
		d.bad("%s: a process that is not the tracker was signalled: %s", what, s)
		os.Remove(d.sentinelDir + "/signalled")
	}
	if ws, ended := d.state(d.sentinel); ended {
		d.bad("%s: a process that is not the tracker was ended: %v", what, ws)
	}
}

func alivePid(pid int) bool { return syscall.Kill(pid, 0) != syscall.ESRCH }

func monD01(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	s := newSpawner(c)
	// can processes be given to another user here?
	if os.Getuid() == 0 {
		attr := &syscall.ProcAttr{Sys: &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}}
		if pid, err := syscall.ForkExec("/bin/true", []string{"true"}, attr); err == nil {
			ws, ok := s.wait(pid, 10*time.Second)
			s.uid = ok && ws.ExitStatus() == 0
		}
	}
	if !s.uid {
		c.Note("no unprivileged user here: hostile records that could address other processes were left out")
	}
	defer s.sweep()
	r := c.Rand("D01")
	parts := []func(*Ctx, *spawner, string, *rand.Rand){d01cycle, d01records, d01cycle, d01occupied, d01stubborn, d01cycle, d01transports, d01slow}
	for i := 0; i < c.Scale && !c.TooMany(); i++ {
		for _, f := range parts {
			if c.TooMany() {
				break
			}
			f(c, s, bin, r)
			s.sweep()
		}
	}
}

var d01dirs atomic.Int64

func d01name() string { return fmt.Sprint("d01-", d01dirs.Add(1)) }

// d01cycle walks through a random history of commands, deaths and edits of the
// record, with a model of what each must do.
func d01cycle(c *Ctx, s *spawner, bin string, r *rand.Rand) {
	d := newD01(c, s, bin, d01name())
	defer func() { d.untouched("history"); s.sweep() }()
	var running int // the tracker, 0 if none
	recorded := 0   // what the record names, 0 if it is cleared or missing
	exists := false
	for step := 0; step < 20 && !c.Violated(); step++ {
		op := r.Intn(13)
		switch {
		case op < 5:
			before := d.daemons()
			code, _, _ := d.run("start", 60*time.Second)
			if recorded != 0 || running != 0 {
				if code == 0 {
					d.bad("start succeeds with record %d, tracker %d", recorded, running)
				}
				if got := d.daemons(); fmt.Sprint(got) != fmt.Sprint(before) {
					d.bad("a refused start left trackers %v, before %v", got, before)
				}
				if n := d.recorded(); n != recorded && !(n == -1 && recorded == 0) {
					d.bad("a refused start changed the record to %d", n)
				}
				c.Count("starts_refused", 1)
				break
			}
			if code != 0 {
				d.bad("start fails")
				return
			}
			if !d.answering() {
				d.bad("the started tracker does not answer")
				return
			}
			got := d.daemons()
			if len(got) != 1 || d.recorded() != got[0] {
				d.bad("after start the trackers %v run, the record says %d", got, d.recorded())
				return
			}
			running, recorded, exists = got[0], got[0], true
			c.Count("starts", 1)
		case op < 8:
			code, _, took := d.run("stop", 60*time.Second)
			switch {
			case recorded == 0:
				if code == 0 {
					d.bad("stop succeeds without a record")
				}
				if running != 0 && !alivePid(running) {
					d.bad("stop ended a tracker that was not recorded")
				}
				c.Count("stops_refused", 1)
			case recorded == running:
				if code != 0 {
					d.bad("stop fails on a running tracker")
					return
				}
				if alivePid(running) {
					d.bad("stop reports success, the tracker is still there")
				}
				if d.recorded() != -1 {
					d.bad("stop leaves the record %d", d.recorded())
				}
				if ws, ended := d.wait(running, 10*time.Second); !ended || ws.ExitStatus() != 0 {
					d.bad("the stopped tracker ended with %v", ws)
				}
				running, recorded = 0, 0
				c.Count("stops", 1)
				_ = took
			default: // the recorded process is dead
				if code == 0 {
					d.bad("stop reports success for a process that was dead already")
				}
				if n := d.recorded(); n == -1 {
					recorded = 0
				}
				c.Count("stops_refused", 1)
			}
		case op == 8:
			code, _, _ := d.run("restart", 60*time.Second)
			if recorded == 0 || recorded != running {
				if code == 0 {
					d.bad("restart succeeds with record %d, tracker %d", recorded, running)
				}
				if n := d.recorded(); n == -1 {
					recorded = 0
				}
				break
			}
			if code != 0 || !d.answering() {
				d.bad("restart fails")
				return
			}
			got := d.daemons()
			if len(got) != 1 || got[0] == running || d.recorded() != got[0] {
				d.bad("after restart of %d the trackers %v run, the record says %d", running, got, d.recorded())
				return
			}
			running, recorded = got[0], got[0]
			c.Count("restarts", 1)
		case op == 9:
			code, _, _ := d.run("reset", 30*time.Second)
			if exists {
				if code != 0 {
					d.bad("reset fails")
				}
				if st, err := os.Stat(d.pidFile); err == nil && st.Size() != 0 {
					d.bad("reset leaves %q", readString(d.pidFile))
				}
			}
			if running != 0 && !alivePid(running) {
				d.bad("reset ended the tracker")
			}
			recorded = 0
			c.Count("resets", 1)
		case op == 10 && running != 0:
			syscall.Kill(running, syscall.SIGKILL)
			d.wait(running, 10*time.Second)
			d.detail = append(d.detail, "the tracker is killed")
			running = 0
		case op == 11 && running != 0 && recorded == running:
			// ended by itself, the record stays
			syscall.Kill(running, syscall.SIGTERM)
			d.wait(running, 30*time.Second)
			d.detail = append(d.detail, "the tracker ends")
			running = 0
		case op == 12 && r.Intn(2) == 0:
			os.Remove(d.pidFile)
			d.detail = append(d.detail, "the record is removed")
			exists, recorded = false, 0
		}
		if !c.Violated() {
			d.expect("history", recorded != 0, recorded != 0 && recorded == running, running != 0)
		}
		d.untouched("history")
	}
	c.Eval(strings.Join(d.detail, "\n"))
	if len(d.detail) > 0 {
		c.Sample(d.detail)
	}
}

// d01over starts a tracker over a record that cannot be read. Whether that is
// refused or not nobody is harmed, and a tracker that was started is recorded.
func d01over(d *d01, what string) {
	code, _, _ := d.run("start", 60*time.Second)
	d.untouched("start with " + what)
	if code == 0 && d.answering() {
		if got := d.daemons(); len(got) != 1 || d.recorded() != got[0] {
			d.bad("after start with %s the trackers %v run, the record is %.60q", what, got, readString(d.pidFile))
		}
		d.expect("start with "+what, true, true, true)
		d.c.Count("starts_over_unreadable_records", 1)
	}
	for _, p := range d.daemons() {
		syscall.Kill(p, syscall.SIGKILL)
		d.wait(p, 10*time.Second)
	}
}

// d01records has all kinds of records, with and without a running tracker.
func d01records(c *Ctx, s *spawner, bin string, r *rand.Rand) {
	d := newD01(c, s, bin, d01name(), "http.mode", "disabled")
	defer s.sweep()
	dead := s.start([]string{"/bin/true"}, d.cwd, d.dir+"/true", nil, 0)
	s.wait(dead, 10*time.Second)
	records := []string{"", "trakx", "12x", "0x10", "1e3", "99999999999999999999", "-", "--1", "1.5", "\x00", "\xff\xfe", strings.Repeat("9", 5000), "12 13", "1,2", "pid: 7", strings.Repeat("\n", 100), "0b11", "1_000"}
	records = append(records, fmt.Sprintf("x%d", d.sentinel), fmt.Sprintf("%d %d", d.sentinel, d.sentinel), fmt.Sprintf("%dx", d.sentinel), fmt.Sprintf("0x%x", d.sentinel), fmt.Sprintf("%d.0", d.sentinel), fmt.Sprintf("%d\n%d", dead, d.sentinel))
	// numbers that wrap around to the sentinel
	records = append(records, fmt.Sprint(1<<32+int64(d.sentinel)), fmt.Sprint(-(int64(1)<<32)+int64(d.sentinel)))
	if s.uid { // as this user these reach scratch processes at most
		records = append(records, "0", "-1", "-0", fmt.Sprint(-d.sentinel), "-9223372036854775808", "00")
	}
	running := 0
	if r.Intn(2) == 0 {
		if code, _, _ := d.run("start", 60*time.Second); code != 0 || !d.answering() {
			d.bad("start fails")
			return
		}
		running = d.recorded()
	}
	r.Shuffle(len(records), func(i, j int) { records[i], records[j] = records[j], records[i] })
	check := func(what string) {
		code, _, took := d.run("stop", 30*time.Second)
		if code == 0 {
			d.bad("stop succeeds with %s", what)
		}
		if took > 25*time.Second {
			d.bad("stop needs %v with %s", took, what)
		}
		d.untouched("stop with " + what)
		if running != 0 && !alivePid(running) {
			d.bad("stop with %s ended the tracker", what)
		}
		d.expect(what, false, false, running != 0)
		d.untouched("status with " + what)
		c.Eval(what)
		c.Count("records_tried", 1)
	}
	for _, rec := range records {
		if c.Violated() {
			return
		}
		d.detail = []string{fmt.Sprintf("record %.60q", rec)}
		must(c, os.WriteFile(d.pidFile, []byte(rec), 0666), "record")
		os.Chmod(d.pidFile, 0666)
		check(fmt.Sprintf("record %.60q", rec))
		if running == 0 && r.Intn(3) == 0 {
			// what cannot be read does not keep a tracker from starting, or is refused; either way nobody is harmed
			d01over(d, fmt.Sprintf("record %.60q", rec))
		}
	}
	os.Remove(d.pidFile)
	check("no record")
	os.Mkdir(d.pidFile, 0777)
	check("a directory as record")
	os.Remove(d.pidFile)
	if s.uid {
		os.WriteFile(d.pidFile, []byte(fmt.Sprint(d.sentinel)), 0000)
		os.Chown(d.pidFile, 0, 0)
		check("a record that may not be read")
		os.Remove(d.pidFile)
		// a process of another user: may not be signalled
		os.WriteFile(d.pidFile, []byte("1"), 0666)
		if code, _, _ := d.run("stop", 30*time.Second); code == 0 {
			d.bad("stop of another user's process succeeds")
		}
		d.expect("another user's process", true, true, running != 0)
		os.Remove(d.pidFile)
	}
	// a recorded process that is dead
	os.WriteFile(d.pidFile, []byte(fmt.Sprint(dead)), 0666)
	if code, _, _ := d.run("stop", 30*time.Second); code == 0 {
		d.bad("stop succeeds for a process that was dead already")
	}
	d.untouched("records")
	if n := d.recorded(); n == dead {
		d.expect("dead process", true, false, running != 0)
		if code, _, _ := d.run("start", 60*time.Second); code == 0 {
			d.bad("start succeeds with the record of a dead process")
		}
	}
	if !c.Violated() {
		if running != 0 {
			syscall.Kill(running, syscall.SIGKILL)
			d.wait(running, 10*time.Second)
		}
		rec := records[r.Intn(len(records))] + strings.Repeat("x", 20)
		d.detail = []string{fmt.Sprintf("record %.60q", rec)}
		must(c, os.WriteFile(d.pidFile, []byte(rec), 0666), "record")
		os.Chmod(d.pidFile, 0666)
		d01over(d, fmt.Sprintf("record %.60q", rec))
	}
}

// d01occupied has others on the ports.
func d01occupied(c *Ctx, s *spawner, bin string, r *rand.Rand) {
	kv := [][]string{nil, {"http.mode", "disabled"}, {"udp.enabled", "false"}, {"http.mode", "info"}}[r.Intn(4)]
	d := newD01(c, s, bin, d01name(), kv...)
	defer s.sweep()
	udpOn, httpOn := d.cfg["udp.enabled"] == "true", d.cfg["http.mode"] != "disabled"
	var over atomic.Bool
	defer over.Store(true)
	for _, kind := range []string{"silent", "wrong", "closing", "slow"} {
		if c.Violated() {
			return
		}
		u, err := net.ListenUDP("udp", &net.UDPAddr{Port: d.up})
		must(c, err, "occupying")
		l, err := net.Listen("tcp", fmt.Sprint(":", d.hp))
		must(c, err, "occupying")
		go func(kind string) {
			b := make([]byte, 100)
			for {
				_, a, err := u.ReadFromUDP(b)
				if err != nil {
					return
				}
				switch kind {
				case "wrong":
					u.WriteToUDP([]byte{0xfe}, a)
				case "closing":
					u.WriteToUDP(nil, a)
				}
			}
		}(kind)
		var conns []net.Conn
		var mu sync.Mutex
		go func(kind string) {
			for {
				conn, err := l.Accept()
				if err != nil {
					return
				}
				switch kind {
				case "silent":
					mu.Lock()
					conns = append(conns, conn)
					mu.Unlock()
				case "wrong":
					conn.Write([]byte("HTTP/1.1 500 no\r\nContent-Length: 0\r\n\r\n"))
					conn.Close()
				case "closing":
					conn.Close()
				case "slow": // a header that never ends
					go func() {
						conn.Write([]byte("HTTP/1.1 "))
						for !over.Load() {
							if _, err := conn.Write([]byte("2")); err != nil {
								break
							}
							time.Sleep(100 * time.Millisecond)
						}
						conn.Close()
					}()
				}
			}
		}(kind)
		d.detail = []string{"occupied, " + kind, fmt.Sprint(udpOn, httpOn)}
		start := time.Now()
		d.expect(kind+" occupant", false, false, false)
		took := time.Since(start)
		c.Max("max_status_ms", int(took.Milliseconds()))
		if took > 40*time.Second {
			d.bad("status needs %v with a %s occupant", took, kind)
		}
		u.Close()
		l.Close()
		mu.Lock()
		for _, x := range conns {
			x.Close()
		}
		mu.Unlock()
		c.Count("occupants", 1)
		c.Eval(fmt.Sprint("occupant", kind, kv))
	}
	over.Store(true)
	// nobody there at all: answers at once
	d.expect("nothing", false, false, false)
}

const shell = "/bin/sh"

// d01stubborn has recorded processes that do not go away.
func d01stubborn(c *Ctx, s *spawner, bin string, r *rand.Rand) {
	d := newD01(c, s, bin, d01name(), "http.mode", "disabled")
	defer s.sweep()
	pid := s.start([]string{shell, "-c", `n=0; trap "n=\$((n+1)); echo int" INT; trap "" TERM; echo up; while [ $n -lt 2 ]; do sleep 0.05; done`}, d.cwd, d.dir+"/stubborn", []string{"PATH=/usr/bin:/bin"}, 0)
	for i := 0; i < 2000 && !strings.Contains(readString(d.dir+"/stubborn"), "up"); i++ {
		time.Sleep(5 * time.Millisecond)
	}
	os.WriteFile(d.pidFile, []byte(fmt.Sprint(pid)), 0666)
	d.expect("a live process that is no tracker", true, true, false)
	if code, _, _ := d.run("start", 60*time.Second); code == 0 {
		d.bad("start succeeds though the recorded process is alive")
	}
	code, _, took := d.run("stop", 90*time.Second)
	if code == 0 {
		d.bad("stop reports success, the process is still there: %v", alivePid(pid))
	}
	c.Max("max_stop_ms", int(took.Milliseconds()))
	d.untouched("stop of a stubborn process")
	// it is still there and still recorded, a second attempt may succeed
	d.expect("a process that outlived a stop", true, alivePid(pid), false)
	if alivePid(pid) {
		if code, _, _ := d.run("start", 60*time.Second); code == 0 {
			d.bad("start succeeds though the recorded process outlived a stop")
		}
		code, _, took = d.run("stop", 90*time.Second)
		for i := 0; i < 3 && code != 0 && alivePid(pid) && strings.Count(readString(d.dir+"/stubborn"), "int") < 2; i++ {
			// it did not notice one of the signals
			c.Count("signals_unnoticed", 1)
			code, _, took = d.run("stop", 90*time.Second)
		}
		switch gone := !alivePid(pid); {
		case code != 0 && gone:
			d.bad("the second stop reports failure after %v, the process is gone", took)
		case code == 0 && !gone:
			d.bad("the second stop reports success after %v, the process is still there", took)
		case code != 0:
			d.bad("a process that would end with a second stop is not stopped by it (%v), its output is %q", took, readString(d.dir+"/stubborn"))
		default:
			d.expect("stopped with the second stop", false, false, false)
		}
	}
	if len(d.daemons()) != 0 {
		d.bad("trackers %v run", d.daemons())
	}
	c.Count("stubborn_processes", 1)
	c.Eval("stubborn")
}

// d01slow stops processes that need a while.
func d01slow(c *Ctx, s *spawner, bin string, r *rand.Rand) {
	d := newD01(c, s, bin, d01name(), "http.mode", "disabled")
	defer s.sweep()
	for _, secs := range []float64{0.3, 2.5} {
		if c.Violated() {
			return
		}
		// the shell stays until its record of the signal is old enough
		pid := s.start([]string{shell, "-c", fmt.Sprintf(`trap "stop=1" INT; echo up; while [ -z "$stop" ]; do sleep 0.05; done; sleep %v; exit 0`, secs)}, d.cwd, d.dir+"/slow", []string{"PATH=/usr/bin:/bin"}, 0)
		for i := 0; i < 2000 && !strings.Contains(readString(d.dir+"/slow"), "up"); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		os.WriteFile(d.pidFile, []byte(fmt.Sprint(pid)), 0666)
		code, _, took := d.run("stop", 60*time.Second)
		gone := !alivePid(pid)
		if code == 0 && !gone {
			d.bad("stop reports success after %v, the process is still there", took)
		}
		if code != 0 && took < 5*time.Second {
			d.bad("stop gives up on a process that needs %v s to end", secs)
		}
		if code == 0 && d.recorded() != -1 {
			d.bad("stop leaves the record %d", d.recorded())
		}
		d.wait(pid, 20*time.Second)
		os.WriteFile(d.pidFile, nil, 0666)
		c.Count("slow_processes", 1)
		c.Eval(fmt.Sprint("slow", secs))
	}
}

// d01transports has trackers answering in every way they can be configured.
func d01transports(c *Ctx, s *spawner, bin string, r *rand.Rand) {
	type v struct{ kv []string }
	all := []v{
		{[]string{"http.mode", "disabled"}},
		{[]string{"udp.enabled", "false"}},
		{[]string{"udp.enabled", "false", "http.mode", "info"}},
		{[]string{"udp.ip", "127.0.0.2", "http.ip", "127.0.0.3"}},
		{[]string{"udp.ip", "::1", "http.mode", "disabled"}},
		{[]string{"udp.enabled", "false", "http.ip", "::1"}},
		{[]string{"udp.ip", "127.0.0.2", "http.mode", "disabled"}},
		{[]string{"udp.enabled", "false", "http.ip", "127.0.0.3"}},
		{[]string{"udp.ip", "0.0.0.0", "http.ip", "0.0.0.0"}},
		{[]string{"udp.ip", "::", "http.mode", "disabled"}},
		{[]string{"udp.enabled", "false", "http.ip", "::", "http.mode", "info"}},
	}
	off := r.Intn(len(all))
	for i := 0; i < 5 && !c.Violated(); i++ {
		kv := all[(off+i)%len(all)].kv
		d := newD01(c, s, bin, d01name(), kv...)
		d.detail = []string{fmt.Sprint(kv)}
		if code, _, _ := d.run("start", 60*time.Second); code != 0 {
			d.bad("start fails")
			return
		}
		// wait for it to open its sockets
		pid, ready := d.recorded(), false
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end) && !ready; time.Sleep(10 * time.Millisecond) {
			ready = (d.cfg["udp.enabled"] != "true" || bound("udp", d.up)) && (d.cfg["http.mode"] == "disabled" || bound("tcp", d.hp))
		}
		if !ready {
			d.bad("the tracker does not listen")
			return
		}
		time.Sleep(20 * time.Millisecond)
		d.expect("running tracker", true, true, true)
		// answering without a record also keeps another from starting
		rec := readString(d.pidFile)
		os.WriteFile(d.pidFile, nil, 0666)
		if code, _, _ := d.run("start", 60*time.Second); code == 0 {
			d.bad("a second tracker is started while one answers")
		}
		d.expect("unrecorded tracker", false, false, true)
		os.WriteFile(d.pidFile, []byte(rec), 0666)
		if code, _, _ := d.run("stop", 60*time.Second); code != 0 || alivePid(pid) {
			d.bad("stop ends with %d, tracker there: %v", code, alivePid(pid))
		}
		d.untouched("transports")
		c.Count("transports_tried", 1)
		c.Eval(fmt.Sprint("transports", kv))
		s.sweep()
	}
	// the log cannot be opened: nothing is started or recorded
	if c.Violated() {
		return
	}
	d := newD01(c, s, bin, d01name(), "path.log", "~/missing/trakx.log")
	if code, _, _ := d.run("start", 60*time.Second); code == 0 || len(d.daemons()) != 0 || d.recorded() != -1 {
		d.bad("start without a log ends with %d, trackers %v, record %d", code, d.daemons(), d.recorded())
	}
}

// bound tells whether anything here is bound to a port (listening, for TCP).
func bound(proto string, port int) bool {
	for _, f := range []string{proto, proto + "6"} {
		for _, line := range strings.Split(readString("/proc/self/net/"+f), "\n")[1:] {
			w := strings.Fields(line)
			if len(w) > 3 && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) && (proto != "tcp" || w[3] == "0A") {
				return true
			}
		}
	}
	return false
}
