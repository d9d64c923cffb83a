package mon

import (
	"bytes"
	"fmt"
	"io"
	"net/netip"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// pcfg is the configuration of a real tracker process.
type pcfg map[string]string

func defaultPcfg(udpPort, httpPort int) pcfg {
	return pcfg{
		"loglevel": "info", "expvarinterval": "1s", "debug.pprof": "0",
		"announce.base": "30m", "announce.fuzz": "0s",
		"http.mode": "enabled", "http.ip": "null", "http.port": fmt.Sprint(httpPort),
		"http.timeout.read": "20s", "http.timeout.write": "20s", "http.threads": "8",
		"udp.enabled": "true", "udp.ip": "null", "udp.port": fmt.Sprint(udpPort), "udp.threads": "4",
		"udp.conndb.validate": "true", "udp.conndb.size": "0", "udp.conndb.trim": "10m", "udp.conndb.expiry": "30m",
		"numwant.default": "75", "numwant.limit": "200",
		"db.type": "gomap", "db.backup.frequency": "0s", "db.backup.type": "none", "db.backup.path": "none",
		"db.trim": "10m", "db.expiry": "40m",
		"path.log": "~/trakx.log", "path.pid": "~/trakx.pid",
	}
}

func (p pcfg) with(kv ...string) pcfg {
	q := pcfg{}
	for k, v := range p {
		q[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		q[kv[i]] = kv[i+1]
	}
	return q
}

func (p pcfg) yaml() string {
	type node map[string]any
	root := node{}
	for k, v := range p {
		parts := strings.Split(k, ".")
		n := root
		for _, x := range parts[:len(parts)-1] {
			if n[x] == nil {
				n[x] = node{}
			}
			n = n[x].(node)
		}
		n[parts[len(parts)-1]] = v
	}
	var b strings.Builder
	var dump func(n node, ind string)
	dump = func(n node, ind string) {
		var keys []string
		for k := range n {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			switch v := n[k].(type) {
			case node:
				fmt.Fprintf(&b, "%s%s:\n", ind, k)
				dump(v, ind+"  ")
			case string:
				if v == "null" || v == "true" || v == "false" || (v != "" && v[0] >= '0' && v[0] <= '9' && !strings.Contains(v, ".") && !strings.Contains(v, ":")) {
					fmt.Fprintf(&b, "%s%s: %s\n", ind, k, v)
				} else {
					fmt.Fprintf(&b, "%s%s: %q\n", ind, k, v)
				}
			}
		}
	}
	dump(root, "")
	return b.String()
}

// proc is a real tracker process with a home and working directory of its own.
type proc struct {
	c        *Ctx
	cmd      *exec.Cmd
	home     string
	cwd      string
	logPath  string
	udpPort  int
	httpPort int
	done     chan struct{}
	err      error
}

// procEnv is the environment of a tracker, without settings of ours.
func procEnv(home string, extra ...string) []string {
	env := []string{"HOME=" + home, "PATH=" + os.Getenv("PATH"), "GOTRACEBACK=all"}
	if g := os.Getenv("GORACE"); g != "" {
		env = append(env, "GORACE="+g)
	}
	return append(env, extra...)
}

// launch starts bin in dir (home dir/home, working directory dir/cwd).
func launch(c *Ctx, bin, dir string, cfg pcfg, args []string, env ...string) *proc {
	p := &proc{c: c, home: dir + "/home", cwd: dir + "/cwd", logPath: dir + "/log", done: make(chan struct{})}
	os.MkdirAll(p.home, 0755)
	os.MkdirAll(p.cwd, 0755)
	if cfg != nil {
		must(c, os.WriteFile(p.cwd+"/trakx.yaml", []byte(cfg.yaml()), 0644), "configuration")
		fmt.Sscan(cfg["udp.port"], &p.udpPort)
		fmt.Sscan(cfg["http.port"], &p.httpPort)
	}
	log, err := os.OpenFile(p.logPath, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	must(c, err, "log")
	p.cmd = exec.Command(bin, args...)
	p.cmd.Dir = p.cwd
	p.cmd.Env = procEnv(p.home, env...)
	p.cmd.Stdout, p.cmd.Stderr = log, log
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(c, p.cmd.Start(), "starting the tracker")
	log.Close()
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return p
}

func (p *proc) log() string {
	b, _ := os.ReadFile(p.logPath)
	return string(b)
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// ready waits until the transports answer; false if the process ended first.
func (p *proc) ready(udp, http bool) bool {
	if p.serves(udp, http) || p.exited() {
		return !p.exited()
	}
	p.cmd.Process.Signal(syscall.SIGQUIT)
	p.wait(5 * time.Second)
	p.c.Inconclusive("the tracker does not answer: %s", lastBytes(p.log(), 3000))
	return false
}

// serves waits a minute for answers.
func (p *proc) serves(udp, http bool) bool {
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) && !p.exited() {
		ok := true
		if udp {
			ok = tryUDP(p.udpPort)
		}
		if ok && http {
			b, err := hclient{"", p.httpPort}.rawFor([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"), time.Second)
			ok = err == nil && bytes.HasPrefix(b, []byte("HTTP/1.1 200"))
			if !ok && err == nil && len(b) > 0 {
				ok = true
			}
		}
		if ok {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func tryUDP(port int) bool {
	u, err := newUClient("127.0.0.1", port)
	if err != nil {
		return false
	}
	defer u.close()
	u.conn.Write(heartbeatReq)
	r, err := u.recv(200 * time.Millisecond)
	return err == nil && len(r) == 1 && r[0] == 0xff
}

func (h hclient) rawFor(req []byte, d time.Duration) ([]byte, error) {
	conn, err := h.dial()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(d))
	if _, err := conn.Write(req); err != nil {
		return nil, err
	}
	return io.ReadAll(conn)
}

// wait waits for the end of the process.
func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

func (p *proc) signal(s syscall.Signal) { p.cmd.Process.Signal(s) }

// code is the exit code, -1 after death by signal.
func (p *proc) code() int { return p.cmd.ProcessState.ExitCode() }

// crash returns the panic or fatal error in the log, if any.
func (p *proc) crash() string {
	s := p.log()
	for _, k := range []string{"panic: ", "fatal error: ", "unexpected fault address", "SIGSEGV"} {
		if i := strings.Index(s, k); i >= 0 && (i == 0 || s[i-1] == '\n') {
			return lastBytes(s[i:min(len(s), i+3000)], 3000)
		}
	}
	return ""
}

// stop interrupts the process and reports anything but a clean exit.
func (p *proc) stop(what string) {
	p.signal(syscall.SIGINT)
	if !p.wait(90 * time.Second) {
		p.signal(syscall.SIGQUIT)
		p.wait(10 * time.Second)
		p.c.Violate(lastBytes(p.log(), 6000), "%s: the tracker does not exit after an interrupt", what)
		p.cmd.Process.Kill()
		return
	}
	if p.code() != 0 {
		p.c.Violate(lastBytes(p.log(), 6000), "%s: exit %d after an interrupt", what, p.code())
	}
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// runCLI runs a command to its end.
func runCLI(bin string, cwd string, env []string, d time.Duration, args ...string) (code int, out string, finished bool) {
	cmd := exec.Command(bin, args...)
	cmd.Dir, cmd.Env = cwd, env
	var b bytes.Buffer
	f, err := os.CreateTemp(filepath.Dir(cwd), "out")
	if err != nil {
		return -1, err.Error(), false
	}
	defer os.Remove(f.Name())
	cmd.Stdout, cmd.Stderr = f, f
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return -1, err.Error(), false
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	finished = true
	select {
	case <-done:
	case <-time.After(d):
		finished = false
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	f.Seek(0, 0)
	io.Copy(&b, f)
	f.Close()
	return cmd.ProcessState.ExitCode(), b.String(), finished
}

// udpPeers asks a running tracker for all peers of a torrent over HTTP; the
// question itself is an announce that is taken back.
func askPeers(port int, h Hash) (ls []listed, s, l int64, err error) {
	hc := hclient{"127.0.0.1", port}
	id := PeerID{0xf0, 0xf1, 0xf2, 0xf3}
	a, err := hc.announce(hannc{Hash: h, ID: id, Port: "9", Left: "1", NumWant: "100000"})
	if err == nil && a.Failure != "" {
		err = fmt.Errorf("failure %q", a.Failure)
	}
	if err != nil {
		return nil, 0, 0, err
	}
	if _, err = hc.announce(hannc{Hash: h, ID: id, Port: "9", Event: "stopped"}); err != nil {
		return nil, 0, 0, err
	}
	for _, e := range a.Peers {
		if e.ID != string(id[:]) {
			ls = append(ls, e)
		}
	}
	return ls, a.Complete, a.Incompl - 1, nil
}

func mustAddr(s string) netip.Addr { return netip.MustParseAddr(s) }

func notifyAll(ch chan os.Signal) { signal.Notify(ch) }
