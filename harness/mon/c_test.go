package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
)

func init() {
	register("C01", monC01)
	register("C01child", childC01)
	register("C02", monC02)
}

// ---- C01

// childC01 prints the configuration the package found when it was imported.
func childC01(c *Ctx) {
	out := map[string]any{"loaded": false}
	if theConfig.conf != nil {
		out["loaded"] = theConfig.loaded
		out["settings"] = theConfig.flat
	}
	b, _ := json.Marshal(out)
	os.WriteFile(os.Getenv("C01_OUT"), b, 0644)
	os.Exit(0)
}

// theConfig is what was loaded, before the harness changes settings.
var theConfig = func() (t struct {
	conf   *config.Configuration
	loaded bool
	flat   map[string]string
}) {
	t.conf = config.Config
	if t.conf != nil {
		t.loaded = t.conf.Loaded()
		t.flat = map[string]string{}
		flatten(t.flat, "", reflect.ValueOf(*t.conf))
	}
	return
}()

func flatten(out map[string]string, prefix string, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		name := prefix + strings.ToLower(f.Name)
		x := v.Field(i)
		switch {
		case x.Type() == reflect.TypeOf(time.Duration(0)):
			out[name] = x.Interface().(time.Duration).String()
		case x.Kind() == reflect.Struct:
			flatten(out, name+".", x)
		default:
			out[name] = fmt.Sprint(x.Interface())
		}
	}
}

// canonValue is the text flatten gives for a value of a configuration file.
func canonValue(key, v string) string {
	if v == "null" || v == "~" {
		return ""
	}
	switch settingKind(key) {
	case "duration":
		d, err := time.ParseDuration(v)
		if err != nil {
			panic(key + " " + v)
		}
		return d.String()
	case "lower":
		return strings.ToLower(v)
	}
	return v
}

func settingKind(key string) string {
	switch key {
	case "expvarinterval", "announce.base", "announce.fuzz", "http.timeout.read", "http.timeout.write", "udp.conndb.trim", "udp.conndb.expiry", "db.backup.frequency", "db.trim", "db.expiry":
		return "duration"
	case "debug.pprof", "http.port", "http.threads", "udp.port", "udp.threads":
		return "int"
	case "udp.conndb.size", "numwant.default", "numwant.limit":
		return "uint"
	case "udp.enabled", "udp.conndb.validate":
		return "bool"
	case "loglevel", "http.mode":
		return "lower"
	}
	return "string"
}

// parseYAML reads the simple nested maps of trakx.yaml.
func parseYAML(text string) map[string]string {
	out := map[string]string{}
	type level struct {
		indent int
		name   string
	}
	var path []level
	for _, line := range strings.Split(text, "\n") {
		trimmed := strings.TrimLeft(line, " ")
		if strings.TrimSpace(trimmed) == "" || trimmed[0] == '#' {
			continue
		}
		indent := len(line) - len(trimmed)
		for len(path) > 0 && path[len(path)-1].indent >= indent {
			path = path[:len(path)-1]
		}
		name, v, _ := strings.Cut(trimmed, ":")
		v = strings.TrimSpace(v)
		if strings.HasPrefix(v, `"`) {
			q, err := strconv.QuotedPrefix(v)
			if err == nil {
				v, _ = strconv.Unquote(q)
			}
		} else {
			v, _, _ = strings.Cut(v, " #")
			v = strings.TrimSpace(v)
			if v == "" {
				path = append(path, level{indent, name})
				continue
			}
		}
		full := ""
		for _, l := range path {
			full += l.name + "."
		}
		out[strings.ToLower(full+name)] = v
	}
	return out
}

func randSetting(r *rand.Rand, key string) string {
	switch settingKind(key) {
	case "duration":
		return []string{"0s", "1s", "250ms", "90m", "1h30m", "48h", "7s", "1m1s"}[r.Intn(8)]
	case "int":
		return fmt.Sprint([]int{0, 1, 80, 1337, 65535, 7, 512, 6969}[r.Intn(8)])
	case "uint":
		return fmt.Sprint([]int{0, 1, 75, 100000, 200, 33}[r.Intn(6)])
	case "bool":
		return []string{"true", "false"}[r.Intn(2)]
	}
	switch key {
	case "loglevel":
		return []string{"info", "warn", "error", "fatal", "Error", "INFO"}[r.Intn(6)]
	case "http.mode":
		return []string{"enabled", "info", "disabled", "Enabled", "INFO"}[r.Intn(5)]
	case "http.ip", "udp.ip":
		return []string{"127.0.0.1", "::1", "0.0.0.0", "10.1.2.3"}[r.Intn(4)]
	case "db.type":
		return []string{"gomap", "other"}[r.Intn(2)]
	case "db.backup.type":
		return []string{"none", "file", "pg"}[r.Intn(3)]
	case "db.backup.path":
		return []string{"/var/db/x", "./backup", "postgres://u:p@h:5432/d?x=y", "ENV:C01_PATH", "ENV:C01_UNSET", "~/b"}[r.Intn(6)]
	case "path.log":
		return []string{"~/a.log", "/tmp/x.log", "log", "~/.cache/~x"}[r.Intn(4)]
	case "path.pid":
		return []string{"~/a.pid", "/tmp/x.pid", "pid"}[r.Intn(3)]
	}
	return "x"
}

func monC01(c *Ctx) {
	r := c.Rand("C01")
	self := os.Getenv("VMON_SELF")
	if self == "" {
		self, _ = os.Executable()
	}
	def, err := os.ReadFile("/repo/config/embedded/trakx.yaml")
	must(c, err, "default configuration")
	defaults := parseYAML(string(def))
	if len(defaults) < 25 {
		c.Inconclusive("the default configuration has only %d settings", len(defaults))
	}
	var keys []string
	for k := range defaultPcfg(1, 2) {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for k := range defaults {
		if _, ok := defaultPcfg(1, 2)[k]; !ok {
			c.Note("setting %s is not known to the monitor", k)
		}
	}
	n := 60 * c.Scale
	for i := 0; i < n && !c.TooMany(); i++ {
		dir := scratch(c, fmt.Sprint("c01-", i))
		home, cwd := dir+"/home", dir+"/cwd"
		os.MkdirAll(home, 0755)
		os.MkdirAll(cwd, 0755)
		randCfg := func() pcfg {
			p := pcfg{}
			for _, k := range keys {
				p[k] = randSetting(r, k)
				if (k == "http.ip" || k == "udp.ip") && r.Intn(3) == 0 {
					p[k] = "null"
				}
			}
			return p
		}
		// where files are: 0 nowhere, 1 cwd, 2 home, 3 both
		where := i % 4
		files := map[string]string{}
		want := map[string]string{}
		homeFile := home + "/.config/trakx/trakx.yaml"
		if where >= 2 {
			p := randCfg()
			files[homeFile] = p.yaml() + fmt.Sprintf("# %d\n", r.Int())
			for k, v := range p {
				want[k] = canonValue(k, v)
			}
			os.MkdirAll(filepath.Dir(homeFile), 0755)
		}
		if where%2 == 1 {
			p := randCfg()
			files[cwd+"/trakx.yaml"] = p.yaml()
			for k, v := range p {
				want[k] = canonValue(k, v)
			}
		}
		if where == 0 {
			for k, v := range defaults {
				want[k] = canonValue(k, v)
			}
		}
		for f, text := range files {
			must(c, os.WriteFile(f, []byte(text), []os.FileMode{0644, 0600, 0444}[r.Intn(3)]), "file")
			os.Chtimes(f, time.Unix(1e9, 0), time.Unix(1e9, 0))
		}
		env := []string{"HOME=" + home, "PATH=" + os.Getenv("PATH"), "C01_PATH=/from/env " + fmt.Sprint(i), "C01_OUT=" + dir + "/out.json", "VMON=C01child", "VMON_DIR=" + dir, "VMON_OUT=" + dir + "/ignored"}
		var over []string
		nover := r.Intn(4)
		if i/4 < len(keys) && where != 0 || i%8 == 0 { // every setting gets a turn
			over = append(over, keys[(i/4)%len(keys)])
		}
		for ; nover > 0; nover-- {
			over = append(over, keys[r.Intn(len(keys))])
		}
		seen := map[string]bool{}
		for _, k := range over {
			if seen[k] {
				continue
			}
			seen[k] = true
			v := randSetting(r, k)
			env = append(env, "TRAKX_"+strings.ToUpper(strings.ReplaceAll(k, ".", "_"))+"="+v)
			want[k] = canonValue(k, v)
			c.Count("settings_overridden", 1)
		}
		loaded := true
		switch r.Intn(4) {
		case 0:
			p := fmt.Sprint(1 + r.Intn(65535))
			env = append(env, "PORT="+p)
			want["http.port"] = p
			c.Count("port_overrides", 1)
		case 1:
			if r.Intn(3) == 0 {
				env = append(env, "PORT="+[]string{"x", "80a", "tcp:80"}[r.Intn(3)])
				loaded = false
			}
		}
		switch want["db.backup.path"] {
		case "ENV:C01_PATH":
			want["db.backup.path"] = "/from/env " + fmt.Sprint(i)
		case "ENV:C01_UNSET", "ENV:DATABASE_URL":
			want["db.backup.path"] = ""
		}
		for _, k := range []string{"path.log", "path.pid"} {
			want[k] = strings.ReplaceAll(want[k], "~", home)
		}
		detail := map[string]any{"files": files, "env": env, "want": want}
		runs := 1
		if where == 0 {
			runs = 2 // the generated file is then an existing one
		}
		for run := 0; run < runs; run++ {
			os.Remove(dir + "/out.json")
			code, out, ok := runCLI(self, cwd, env, 60*time.Second, "-test.run", "^TestMon$")
			if !ok || code != 0 {
				if strings.Contains(out, "panic:") && strings.Contains(out, "crimist/trakx") {
					c.Violate(lastBytes(out, 3000), "loading the configuration crashes")
					break
				}
				c.Inconclusive("the child ended with %d: %s", code, lastBytes(out, 2000))
			}
			var got struct {
				Loaded   bool
				Settings map[string]string
			}
			b, err := os.ReadFile(dir + "/out.json")
			must(c, err, "output")
			must(c, json.Unmarshal(b, &got), "output")
			detail["got"] = got
			if got.Loaded != loaded {
				c.Violate(detail, "loaded is %v, want %v", got.Loaded, loaded)
			}
			if loaded {
				for k, w := range want {
					if k == "loglevel" && w != "info" && w != "warn" && w != "error" && w != "fatal" && w != "debug" {
						continue
					}
					if g, ok := got.Settings[k]; !ok || g != w {
						c.Violate(detail, "%s is %q, want %q (files %d)", k, g, w, where)
					}
					c.Count("settings_compared", 1)
				}
			}
			// the files
			for f, text := range files {
				b, err := os.ReadFile(f)
				st, err2 := os.Stat(f)
				if err != nil || err2 != nil || string(b) != text {
					c.Violate(detail, "the existing configuration %s was modified", f)
				} else if st.ModTime().Unix() != 1e9 {
					c.Violate(detail, "the existing configuration %s was written to", f)
				}
			}
			if _, existed := files[homeFile]; !existed {
				b, err := os.ReadFile(homeFile)
				if err != nil {
					c.Violate(detail, "no configuration was generated: %v", err)
				} else if !bytes.Equal(b, def) {
					c.Violate(detail, "the generated configuration is not the default one")
				}
				c.Count("files_generated", 1)
			}
			if where%2 == 0 {
				if _, err := os.Stat(cwd + "/trakx.yaml"); err == nil {
					c.Violate(detail, "a configuration appeared in the working directory")
				}
			}
			if where == 0 && run == 0 {
				// a later edit of the generated file is kept and used
				edited := regexp.MustCompile(`(?m)^  limit: .*$`).ReplaceAllString(string(def), "  limit: 123")
				os.WriteFile(homeFile, []byte(edited), 0644)
				os.Chtimes(homeFile, time.Unix(1e9, 0), time.Unix(1e9, 0))
				files[homeFile] = edited
				if !seen["numwant.limit"] {
					want["numwant.limit"] = "123"
				}
			}
		}
		if i == 1 {
			c.Sample(map[string]any{"env": over, "where": where})
		}
		c.Eval(fmt.Sprint(where, over, files))
	}
	if bin := os.Getenv("TRAKX_BIN"); bin != "" && !c.Violated() {
		c01refuse(c, bin)
		c01kept(c, bin)
	}
}

// c01kept has existing configurations of any content, none may be touched.
func c01kept(c *Ctx, bin string) {
	def, err := os.ReadFile("/repo/config/embedded/trakx.yaml")
	must(c, err, "default configuration")
	r := c.Rand("C01/kept")
	noise := make([]byte, 300)
	r.Read(noise)
	contents := map[string][]byte{
		"an empty file": {}, "a newline": []byte("\n"), "blanks": []byte("  \n\n \n"), "a comment": []byte("# all is in the environment\n"),
		"a document mark": []byte("---\n"), "zeros": make([]byte, 100), "noise": noise, "half of the default": def[:len(def)/2], "the default and more": append(append([]byte{}, def...), "\n# end\n"...),
		"one setting": []byte("loglevel: error\n"), "no settings": []byte("{}\n"), "a list": []byte("- 1\n- 2\n"),
	}
	var names []string
	for k := range contents {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, k := range names {
		for _, how := range []string{"home", "home, read-only", "home, a link", "cwd"} {
			if c.TooMany() {
				return
			}
			dir := scratch(c, fmt.Sprint("c01k-", i, how[:3], len(how)))
			homeFile := dir + "/home/.config/trakx/trakx.yaml"
			f := homeFile
			os.MkdirAll(filepath.Dir(f), 0755)
			os.MkdirAll(dir+"/cwd", 0755)
			switch how {
			case "cwd":
				f = dir + "/cwd/trakx.yaml"
			case "home, a link":
				f = dir + "/real.yaml"
				must(c, os.Symlink(f, homeFile), "link")
			}
			mode := os.FileMode(0644)
			if strings.Contains(how, "read-only") {
				mode = 0400
			}
			must(c, os.WriteFile(f, contents[k], mode), "configuration")
			must(c, os.Chmod(f, mode), "configuration")
			os.Chtimes(f, time.Unix(1e9, 0), time.Unix(1e9, 0))
			before, _ := os.Lstat(homeFile)
			_, out, ok := runCLI(bin, dir+"/cwd", procEnv(dir+"/home"), 60*time.Second, "status")
			if !ok {
				c.Inconclusive("status does not end: %s", lastBytes(out, 1000))
			}
			detail := map[string]any{"content": fmt.Sprintf("%.200q", contents[k]), "where": how, "output": lastBytes(out, 1000)}
			b, err := os.ReadFile(f)
			st, err2 := os.Stat(f)
			switch {
			case err != nil || err2 != nil || !bytes.Equal(b, contents[k]):
				c.Violate(detail, "an existing configuration (%s, %s) was changed", k, how)
			case st.ModTime().Unix() != 1e9 || st.Mode().Perm() != mode:
				c.Violate(detail, "an existing configuration (%s, %s) was written to", k, how)
			}
			if after, err := os.Lstat(homeFile); before != nil && (err != nil || after.Mode().Type() != before.Mode().Type()) {
				c.Violate(detail, "an existing configuration (%s, %s) was replaced", k, how)
			}
			if how == "cwd" {
				if b, err := os.ReadFile(homeFile); err != nil || !bytes.Equal(b, def) {
					c.Violate(detail, "no default configuration was generated beside %s in the working directory: %v", k, err)
				}
			}
			c.Count("existing_files_kept", 1)
			c.Eval("kept " + k + how)
		}
	}
}

// c01refuse starts trackers with configurations that cannot be used.
func c01refuse(c *Ctx, bin string) {
	up, hp := freePort(c), freePort(c)
	good := defaultPcfg(up, hp)
	cases := map[string]func() (string, []string){
		"not yaml":       func() (string, []string) { return "loglevel: [\n\t{", nil },
		"port is a word": func() (string, []string) { return good.with("http.port", "many").yaml(), nil },
		"bad duration":   func() (string, []string) { return good.with("db.trim", "5 parsecs").yaml(), nil },
		"bad bool":       func() (string, []string) { return good.with("udp.enabled", "perhaps").yaml(), nil },
		"negative limit": func() (string, []string) { return good.with("numwant.limit", "-4").yaml(), nil },
		"map for a number": func() (string, []string) {
			return strings.ReplaceAll(good.yaml(), "  threads: 4", "  threads: {a: 1}"), nil
		},
		"PORT is a word":      func() (string, []string) { return good.yaml(), []string{"PORT=http"} },
		"bad env override":    func() (string, []string) { return good.yaml(), []string{"TRAKX_UDP_PORT=one"} },
		"unknown database":    func() (string, []string) { return good.with("db.type", "btree").yaml(), nil },
		"unknown backup":      func() (string, []string) { return good.with("db.backup.type", "tape").yaml(), nil },
		"unreadable duration": func() (string, []string) { return good.yaml(), []string{"TRAKX_ANNOUNCE_BASE=soon"} },
	}
	var names []string
	for k := range cases {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, k := range names {
		text, env := cases[k]()
		for _, place := range []string{"cwd", "home"} {
			dir := scratch(c, fmt.Sprint("c01r-", i, place))
			f := dir + "/cwd/trakx.yaml"
			if place == "home" {
				f = dir + "/home/.config/trakx/trakx.yaml"
			}
			os.MkdirAll(filepath.Dir(f), 0755)
			os.WriteFile(f, []byte(text), 0644)
			p := launch(c, bin, dir, nil, args(""), env...)
			ended := false
			for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
				if ended = p.wait(50 * time.Millisecond); ended {
					break
				}
				if tryUDP(up) {
					break
				}
				if conn, err := net.Dial("tcp", fmt.Sprint("127.0.0.1:", hp)); err == nil {
					conn.Close()
					break
				}
			}
			switch {
			case !ended:
				c.Violate(map[string]any{"config": text, "env": env, "log": lastBytes(p.log(), 1500)}, "%s: the tracker runs", k)
				p.kill()
			case p.code() == 0:
				c.Violate(lastBytes(p.log(), 1500), "%s: the tracker exits with success", k)
			}
			if b, _ := os.ReadFile(f); string(b) != text {
				c.Violate(nil, "%s: the configuration file was changed", k)
			}
			c.Count("refusals", 1)
			c.Eval("refuse " + k + place)
		}
	}
	// the same with nothing wrong does run
	dir := scratch(c, "c01good")
	p := launch(c, bin, dir, good, args(""))
	if !p.ready(true, true) {
		c.Violate(lastBytes(p.log(), 1500), "a good configuration is refused")
		return
	}
	p.stop("good configuration")
}

// ---- C02

// psock is an open socket of a process.
type psock struct {
	Proto string
	Addr  string
	Port  int
	State string
}

// sockets lists the listening TCP and all UDP sockets of a process.
func sockets(pid int) (out []psock, err error) {
	inodes := map[string]bool{}
	fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return nil, err
	}
	for _, f := range fds {
		l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, f.Name()))
		if strings.HasPrefix(l, "socket:[") {
			inodes[l[8:len(l)-1]] = true
		}
	}
	for _, proto := range []string{"tcp", "tcp6", "udp", "udp6"} {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, proto))
		if err != nil {
			return nil, err
		}
		for _, line := range strings.Split(string(b), "\n")[1:] {
			f := strings.Fields(line)
			if len(f) < 10 || !inodes[f[9]] {
				continue
			}
			if strings.HasPrefix(proto, "tcp") && f[3] != "0A" {
				continue
			}
			hexAddr, hexPort, _ := strings.Cut(f[1], ":")
			port, _ := strconv.ParseInt(hexPort, 16, 32)
			var ip net.IP
			for i := 0; i+8 <= len(hexAddr); i += 8 {
				w, _ := strconv.ParseUint(hexAddr[i:i+8], 16, 32)
				ip = append(ip, byte(w), byte(w>>8), byte(w>>16), byte(w>>24))
			}
			out = append(out, psock{strings.TrimSuffix(proto, "6"), ip.String(), int(port), f[3]})
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out, nil
}

// want2 is what should be open; "any" stands for one socket for everything.
func wantSock(ip string) string {
	if ip == "null" {
		return "any"
	}
	return ip
}

func sockMatch(got psock, proto, ip string, port int) bool {
	if got.Proto != proto || got.Port != port {
		return false
	}
	switch ip {
	case "any", "::", "0.0.0.0": // Go takes either for all addresses
		return got.Addr == "::" || got.Addr == "0.0.0.0"
	}
	return got.Addr == ip
}

func monC02(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	heroku := os.Getenv("TRAKX_BIN_HEROKU")
	r := c.Rand("C02")
	ips := []string{"null", "127.0.0.1", "127.0.0.2", "::1", "0.0.0.0", "::", "127.8.0.3"}
	// what reaches each of the addresses: client address, server address
	reach := func(ip string) (yes, no []string) {
		all := []string{"127.0.0.1", "127.0.0.2", "127.8.0.3", "::1"}
		for _, a := range all {
			ok := ip == "null" || ip == "::" || ip == a || ip == "0.0.0.0"
			if ip == "0.0.0.0" && a == "::1" {
				continue
			}
			if ok {
				yes = append(yes, a)
			} else {
				no = append(no, a)
			}
		}
		return
	}
	n := 14 * c.Scale
	for i := 0; i < n && !c.TooMany(); i++ {
		mode := []string{"enabled", "enabled", "info", "disabled"}[r.Intn(4)]
		udpOn := r.Intn(4) > 0
		uip, hip := ips[(i)%len(ips)], ips[(i+i/len(ips))%len(ips)]
		up, hp := freePort(c), freePort(c)
		if r.Intn(3) == 0 {
			up = hp
		}
		pprof := 0
		if r.Intn(4) == 0 {
			pprof = freePort(c)
		}
		dir := scratch(c, fmt.Sprint("c02-", i))
		cfg := defaultPcfg(up, hp).with("udp.enabled", fmt.Sprint(udpOn), "udp.ip", uip, "http.mode", mode, "http.ip", hip, "debug.pprof", fmt.Sprint(pprof),
			"expvarinterval", []string{"0s", "50ms"}[r.Intn(2)])
		b, env := bin, []string{}
		kind := ""
		if heroku != "" && r.Intn(4) == 0 {
			b, kind = heroku, "heroku"
		}
		if r.Intn(3) == 0 { // the port comes from the environment
			env = append(env, fmt.Sprint("PORT=", hp))
			cfg["http.port"] = fmt.Sprint(freePort(c))
		}
		p := launch(c, b, dir, cfg, args(kind), env...)
		p.httpPort = hp
		type exp struct {
			proto, ip string
			port      int
		}
		var want []exp
		if udpOn {
			want = append(want, exp{"udp", wantSock(uip), up})
		}
		if mode != "disabled" {
			want = append(want, exp{"tcp", wantSock(hip), hp})
		}
		if pprof != 0 {
			want = append(want, exp{"tcp", "127.0.0.1", pprof})
		}
		detail := map[string]any{"build": kind, "config": cfg, "env": env, "want": want}
		// wait until everything wanted is there, then nothing more may appear
		problem := ""
		check := func() string {
			got, err := sockets(p.cmd.Process.Pid)
			if err != nil {
				return err.Error()
			}
			detail["got"] = got
			for _, w := range want {
				ok := false
				for _, g := range got {
					ok = ok || sockMatch(g, w.proto, w.ip, w.port)
				}
				if !ok {
					return fmt.Sprintf("nothing listens on %s %s port %d", w.proto, w.ip, w.port)
				}
			}
			if len(got) != len(want) {
				return fmt.Sprintf("%d sockets are open: %v", len(got), got)
			}
			return ""
		}
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
			if problem = check(); problem == "" || p.exited() {
				break
			}
		}
		if p.exited() {
			c.Violate(map[string]any{"detail": detail, "log": lastBytes(p.log(), 2000)}, "the tracker ended with %d", p.code())
			continue
		}
		if problem == "" {
			time.Sleep(150 * time.Millisecond)
			problem = check()
		}
		if problem != "" {
			c.Violate(detail, "%s", problem)
			p.kill()
			continue
		}
		c.Count("socket_tables_compared", 1)
		// reach it, or not, over each address
		h := Hash{byte(i), 0xc2}
		peers := 0
		if udpOn {
			yes, no := reach(uip)
			for k, a := range append(append([]string{}, yes...), no...) {
				ok := k < len(yes)
				if ok && a != uip && a != "127.0.0.1" && a != "::1" {
					continue // the system answers from another address then
				}
				u, err := dialUDP(a, up)
				must(c, err, "client")
				u.conn.Write(heartbeatReq)
				wait := 30 * time.Second
				if !ok {
					wait = 60 * time.Millisecond
				}
				b, err := u.recv(wait)
				if ok != (err == nil && len(b) == 1) {
					c.Violate(detail, "UDP over %s: %x %v", a, b, err)
				}
				if ok {
					if err := u.connect(); err != nil {
						c.Violate(detail, "connect over %s: %v", a, err)
					} else {
						if _, err := u.announce(annc{Hash: h, ID: PeerID{byte(k), 1}, Port: 5, Left: 1}); err != nil {
							c.Violate(detail, "announce over %s: %v", a, err)
						}
						peers++
					}
				}
				u.close()
				c.Count("udp_reached_or_not", 1)
			}
		}
		yes, no := reach(hip)
		if mode == "disabled" {
			no, yes = append(no, yes...), nil
		}
		for k, a := range append(append([]string{}, yes...), no...) {
			ok := k < len(yes)
			conn, err := net.DialTimeout("tcp", net.JoinHostPort(a, fmt.Sprint(hp)), 30*time.Second)
			if ok != (err == nil) {
				c.Violate(detail, "TCP over %s: %v", a, err)
			}
			if err != nil {
				continue
			}
			conn.SetDeadline(time.Now().Add(30 * time.Second))
			fmt.Fprintf(conn, "GET /scrape?info_hash=%s HTTP/1.1\r\nHost: x\r\n\r\n", esc(h[:]))
			raw := readAll(conn)
			conn.Close()
			if mode == "enabled" {
				files, failure, err := decodeHScrape(raw)
				if err != nil || failure != "" || files[h] != [2]int64{0, int64(peers)} {
					c.Violate(detail, "over %s: %d peers were announced over UDP, HTTP says %v %s %v", a, peers, files[h], failure, err)
				}
			} else if !bytes.HasPrefix(raw, []byte("HTTP/1.1 200")) {
				c.Violate(detail, "info server over %s: %.100q", a, raw)
			}
			c.Count("http_reached_or_not", 1)
		}
		p.stop("tracker")
		c.Eval(fmt.Sprint(mode, udpOn, uip, hip, up == hp, pprof != 0, kind, len(env)))
		if i == 0 {
			c.Sample(detail)
		}
	}
	if !c.Violated() {
		c02fail(c, bin)
	}
}

func readAll(conn net.Conn) []byte {
	var b bytes.Buffer
	b.ReadFrom(conn)
	return b.Bytes()
}

// dialUDP talks to one address of this machine.
func dialUDP(ip string, port int) (*uclient, error) {
	conn, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.ParseIP(ip), Port: port})
	if err != nil {
		return nil, err
	}
	return &uclient{conn: conn}, nil
}

// c02fail has listeners fail.
func c02fail(c *Ctx, bin string) {
	type bad struct {
		name string
		kv   []string
		udp  bool // a UDP socket occupies the UDP port
		tcp  string
	}
	up, hp := freePort(c), freePort(c)
	for i, b := range []bad{
		{name: "UDP port taken", udp: true},
		{name: "HTTP port taken", tcp: "127.0.0.1"},
		{name: "HTTP port taken on IPv6", tcp: "::1", kv: []string{"http.ip", "::1"}},
		{name: "info port taken", tcp: "127.0.0.1", kv: []string{"http.mode", "info", "http.ip", "127.0.0.1"}},
		{name: "UDP port taken, HTTP disabled", udp: true, kv: []string{"http.mode", "disabled"}},
		{name: "HTTP port taken, UDP disabled", tcp: "127.0.0.1", kv: []string{"udp.enabled", "false"}},
		{name: "no such UDP address", kv: []string{"udp.ip", "192.0.2.77"}},
		{name: "no such HTTP address", kv: []string{"http.ip", "192.0.2.77"}},
		{name: "no such info address", kv: []string{"http.ip", "192.0.2.77", "http.mode", "info"}},
		{name: "malformed UDP address", kv: []string{"udp.ip", "300.1.2.3"}},
		{name: "malformed HTTP address", kv: []string{"http.ip", "1.2.3"}},
		{name: "UDP port out of range", kv: []string{"udp.port", "70000"}},
		{name: "HTTP port out of range", kv: []string{"http.port", "70000"}},
	} {
		if c.TooMany() {
			return
		}
		for _, interval := range []string{"0s", "50ms"} {
			var closers []func() error
			if b.udp {
				conn, err := net.ListenUDP("udp", &net.UDPAddr{Port: up})
				must(c, err, "occupying")
				closers = append(closers, conn.Close)
			}
			if b.tcp != "" {
				l, err := net.Listen("tcp", net.JoinHostPort(b.tcp, fmt.Sprint(hp)))
				must(c, err, "occupying")
				closers = append(closers, l.Close)
			}
			cfg := defaultPcfg(up, hp).with("expvarinterval", interval).with(b.kv...)
			p := launch(c, bin, scratch(c, fmt.Sprint("c02f-", i, interval)), cfg, args(""))
			if !p.wait(30 * time.Second) {
				got, _ := sockets(p.cmd.Process.Pid)
				c.Violate(map[string]any{"sockets": got, "log": lastBytes(p.log(), 2000)}, "%s: the tracker keeps running", b.name)
				p.kill()
			} else if p.code() == 0 {
				c.Violate(lastBytes(p.log(), 2000), "%s: the tracker exits with success", b.name)
			}
			for _, f := range closers {
				f()
			}
			c.Count("listeners_failed", 1)
			c.Eval(b.name + interval)
		}
	}
}
