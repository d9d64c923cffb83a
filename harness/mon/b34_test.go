package mon

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/netip"
	"os"
	"os/exec"
	"os/signal"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	gomap "github.com/crimist/trakx/tracker/storage/map"
)

func init() {
	register("B03", monB03)
	register("B03child", childB03)
	register("B03loop", loopB03)
	register("B04", monB04)
	register("B04child", childB04)
	register("B04probe", func(c *Ctx) {
		if !strings.Contains(c.Variant, "race") {
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
		}
		_, err := openFile(os.Getenv("B_PATH"))
		syscall.Write(1, []byte(fmt.Sprintf("LOADED %v\n", err == nil)))
		os.Exit(0)
	})
}

// ---- B03

// b03model is a state recognisable from any part of it.
func b03model(seed int64, n int) (model, []Hash) {
	r := rand.New(rand.NewSource(seed))
	m := model{}
	var hs []Hash
	for i := 0; i < 5; i++ {
		var h Hash
		h[0], h[1] = byte(i), 0xb3
		hs = append(hs, h)
	}
	for i := 0; i < n; i++ {
		var id PeerID
		r.Read(id[:])
		p := oddPeer(r)
		p.Port = uint16(1 + seed)
		m.save(hs[r.Intn(5)], id, p)
	}
	return m, hs
}

func (m model) into(db *gomap.Memory) {
	for h, t := range m {
		for id, p := range t {
			db.Save(p.IP, p.Port, p.Complete, h, id)
		}
	}
}

// which tells which of the states the file holds.
func b03which(c *Ctx, path string, states []model, hs []Hash) (int, string) {
	db, err := openFile(path)
	if err != nil {
		return -1, "it cannot be loaded: " + err.Error()
	}
	defer func() {
		for _, m := range states {
			dropAll(db, m)
		}
		stats.Seeds.Store(0)
		stats.Leeches.Store(0)
	}()
	var ds []string
	for i, m := range states {
		if d := checkAll(c, db, m, hs); d == "" {
			return i, ""
		} else {
			ds = append(ds, fmt.Sprintf("state %d: %.400s", i, d))
		}
	}
	return -1, "it is neither: " + strings.Join(ds, "; ")
}

// childB03: the previous backup is in place; saves state 2 between two marks,
// then state 3. Every step is reported on standard output.
func childB03(c *Ctx) {
	runtime.LockOSThread()
	path := os.Getenv("B_PATH")
	var n int
	fmt.Sscan(os.Getenv("B_N"), &n)
	db, err := openFile(os.Getenv("B_COPY"))
	must(c, err, "loading the previous backup")
	a, _ := b03model(1, n/2)
	dropAll(db, a)
	b, _ := b03model(2, n)
	b.into(db)
	config.Config.DB.Backup.Path = path
	var lim int64
	fmt.Sscan(os.Getenv("B_FSIZE"), &lim)
	if lim > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		must(c, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(lim), Max: ^uint64(0)}), "file size limit")
	}
	runtime.GC()
	syscall.Write(1, []byte("BEGIN\n"))
	err = db.Backup().Save()
	syscall.Write(1, []byte(fmt.Sprintf("END %v\n", err != nil)))
	if lim > 0 {
		must(c, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: ^uint64(0), Max: ^uint64(0)}), "file size limit")
	}
	if os.Getenv("B_PAUSE") != "" { // the parent looks at the file
		syscall.Write(1, []byte("PAUSE\n"))
		bufio.NewReader(os.Stdin).ReadString('\n')
	}
	dropAll(db, b)
	m3, _ := b03model(3, n/3)
	m3.into(db)
	err = db.Backup().Save()
	syscall.Write(1, []byte(fmt.Sprintf("NEXT %v\n", err != nil)))
	os.Exit(0)
}

// loopB03 saves one state after another until it is killed.
func loopB03(c *Ctx) {
	var n int
	fmt.Sscan(os.Getenv("B_N"), &n)
	os.Remove(os.Getenv("B_PATH") + ".none")
	config.Config.DB.Backup.Path = os.Getenv("B_PATH") + ".none"
	var dbs []*gomap.Memory
	for i := int64(1); i <= 2; i++ {
		db := &gomap.Memory{}
		must(c, db.Init(&gomap.FileBackup{}), "opening")
		m, _ := b03model(i, n/int(i))
		m.into(db)
		dbs = append(dbs, db)
	}
	config.Config.DB.Backup.Path = os.Getenv("B_PATH")
	for i := 0; ; i++ {
		if err := dbs[i%2].Backup().Save(); err != nil {
			syscall.Write(1, []byte("ERROR "+err.Error()+"\n"))
		}
		syscall.Write(1, []byte("SAVED\n"))
	}
}

var writtenTo = regexp.MustCompile(`p?write(?:64|v|v2)?\(\d+<(/[^>]+)>`)

var syscallLine = regexp.MustCompile(`^(?:\[pid +)?(\d+)\]? +(\w+)\((.*)`)

func monB03(c *Ctx) {
	dir := scratch(c, "b03")
	path, copyPath := dir+"/save/backup.db", dir+"/copy.db"
	os.MkdirAll(dir+"/save", 0755)
	// what is left of a small database when it cannot be written may differ:
	// it fits into any buffer
	b03size(c, dir, path, copyPath, 8, false, false)
	// the first save of all: before it there is nothing
	b03size(c, dir, path, copyPath, 60, false, true)
	states := b03size(c, dir, path, copyPath, 400, true, false)
	if c.TooMany() || states == nil {
		return
	}
	// somewhere that does not exist
	db, err := openFile(copyPath)
	must(c, err, "backup")
	config.Config.DB.Backup.Path = dir + "/nowhere/db"
	if err := db.Backup().Save(); err == nil {
		c.Violate(nil, "saving into a directory that does not exist succeeds")
	}
	config.Config.DB.Backup.Path = path
	if err := db.Backup().Save(); err != nil {
		c.Violate(nil, "saving after a failed save fails: %v", err)
	}
	forget(db, states[0])
	b03kills(c, dir, path)
}

// b03size interrupts saves of a database of n peers, deep by a kill at every
// call too. It returns the states. With first there is no previous backup.
func b03size(c *Ctx, dir, path, copyPath string, n int, deep, first bool) []model {
	prepare := func() ([]model, []Hash) {
		a, hs := b03model(1, n/2)
		b, _ := b03model(2, n)
		m3, _ := b03model(3, n/3)
		os.RemoveAll(dir + "/save")
		os.MkdirAll(dir+"/save", 0755)
		os.Remove(copyPath)
		db, err := openFile(copyPath)
		must(c, err, "opening without a file")
		a.into(db)
		if err := db.Backup().Save(); err != nil {
			c.Violate(nil, "saving failed: %v", err)
		}
		forget(db, a)
		b0, err := os.ReadFile(copyPath)
		must(c, err, "backup")
		if first {
			return []model{{}, b, m3}, hs
		}
		must(c, os.WriteFile(path, b0, 0644), "backup")
		return []model{a, b, m3}, hs
	}
	states, hs := prepare()
	env := []string{"B_PATH=" + path, "B_COPY=" + copyPath, fmt.Sprint("B_N=", n)}
	// run starts the child, by strace if args are given, and judges the file
	run := func(what string, args []string, extra ...string) (string, int) {
		prepare()
		cmd := selfChild(c, "B03child", dir, append(append([]string{}, env...), extra...)...)
		if args != nil {
			strace, err := exec.LookPath("strace")
			must(c, err, "strace")
			cmd.Args = append(append([]string{strace}, args...), cmd.Args...)
			cmd.Args[len(args)+1] = cmd.Path
			cmd.Path = strace
		}
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		cmd.Start()
		waitOrKill(c, cmd, what)
		s := out.String()
		if !strings.Contains(s, "BEGIN") && (args == nil || !strings.Contains(strings.Join(args, " "), "inject")) {
			c.Inconclusive("%s: child: %s %s", what, s, lastBytes(errs.String(), 2000))
		}
		i, d := b03which(c, path, states, hs)
		next := strings.Contains(s, "NEXT")
		detail := map[string]any{"child": s, "stderr": lastBytes(errs.String(), 1000)}
		failed := strings.Contains(s, "END true")
		switch {
		case i < 0:
			c.Violate(detail, "%s: the backup afterwards: %s", what, d)
		case next && strings.Contains(s, "NEXT true"):
			c.Violate(detail, "%s: the next save fails", what)
		case next && i != 2:
			c.Violate(detail, "%s: the next save left backup %d", what, i)
		case !next && strings.Contains(s, "END false") && i == 0:
			c.Violate(detail, "%s: a save reported success and left the previous backup", what)
		}
		c.Count("interrupted_saves", 1)
		if first {
			c.Count("interrupted_first_saves", 1)
		}
		if failed {
			c.Count("failed_saves_reported", 1)
		}
		if !strings.Contains(s, "END") {
			c.Count("killed_during_the_save", 1)
		}
		c.Count([]string{"left_previous", "left_new", "left_next", "left_damaged"}[(i+4)%4], 1)
		c.Eval(what)
		return s, i
	}
	run("undisturbed save", nil)
	// which calls does a save make?
	trace := dir + "/trace"
	var calls []b03call
	var text string
	names := map[string]int{} // of how many traced saves
	for i := 0; i < 2; i++ {
		run("traced save", []string{"-f", "-y", "-o", trace, "-e", "trace=%file,%desc"})
		b, err := os.ReadFile(trace)
		must(c, err, "trace")
		text = string(b)
		calls = b03calls(dir+"/save", text)
		here := map[string]bool{}
		for _, k := range calls {
			for _, p := range k.paths {
				here[p] = true
			}
		}
		for p := range here {
			names[p]++
		}
	}
	if len(calls) < 3 {
		c.Inconclusive("a save makes only %d calls on its files: %s", len(calls), lastBytes(text, 4000))
	}
	c.Count("system_calls_of_a_save", len(calls))
	// strace counts the calls on these files; if their names change from save
	// to save, all calls of the thread
	var filter []string
	changing := false
	for p, n := range names {
		filter = append(filter, "-P", p)
		changing = changing || n < 2
	}
	if changing {
		filter = nil
		for i := range calls {
			calls[i].nth = calls[i].inThread
		}
		c.Count("sizes_with_changing_file_names", 1)
	}
	r := c.Rand("B03")
	const most = 60 // of a save that writes in many pieces only a sample
	for i, k := range calls {
		if len(calls) > most && i > 10 && i < len(calls)-10 && r.Intn(len(calls)) > most {
			continue
		}
		args := append([]string{"-f", "-o", "/dev/null", "-e", "trace=" + k.name}, filter...)
		if !deep && c.Scale < 10 && k.name != "write" && k.name != "pwrite64" {
			continue
		}
		run(fmt.Sprintf("killed at %s number %d", k.name, k.nth), append(args, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", k.name, k.nth)))
		switch k.name {
		case "openat", "write", "pwrite64", "rename", "renameat", "renameat2", "fsync", "fdatasync", "ftruncate", "link", "linkat":
			for _, e := range []string{"ENOSPC", "EIO"} {
				_, left := run(fmt.Sprintf("%s number %d failing with %s", k.name, k.nth, e), append(args, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", k.name, e, k.nth)))
				_ = left
				// the state between the failed save and the next one
				b03pause(c, dir, append(args, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", k.name, e, k.nth)), env, path, states, hs, prepare, fmt.Sprintf("%s number %d failing with %s", k.name, k.nth, e))
			}
		}
		if c.TooMany() {
			return nil
		}
	}
	// the file cannot be put in its place, and then the process is killed
	for _, k := range calls {
		if changing || !strings.HasPrefix(k.name, "rename") && !strings.HasPrefix(k.name, "link") {
			continue
		}
		for nth := 1; nth <= 3; nth++ {
			args := append([]string{"-f", "-o", "/dev/null", "-e", "trace=write,pwrite64," + k.name}, filter...)
			run(fmt.Sprintf("%s failing, then killed at write number %d", k.name, nth), append(args,
				"-e", fmt.Sprintf("inject=%s:error=EXDEV:when=%d", k.name, k.nth), "-e", fmt.Sprintf("inject=write,pwrite64:signal=KILL:when=%d", nth)))
			c.Count("two_faults", 1)
		}
	}
	// the disk fills up somewhere in the middle
	whole, err := os.Stat(copyPath)
	must(c, err, "backup")
	for i := 0; i < 6*c.Scale; i++ {
		lim := 1 + r.Int63n(whole.Size()*2-1)
		b03pause(c, dir, nil, append(append([]string{}, env...), fmt.Sprint("B_FSIZE=", lim)), path, states, hs, prepare, fmt.Sprintf("disk full after %d bytes", lim))
		c.Eval(fmt.Sprint("full", lim))
	}
	return states
}

// b03call is a system call of a save on one of its files.
type b03call struct {
	name     string
	nth      int // on these files
	inThread int // of all calls of the thread
	paths    []string
}

// b03calls finds the calls a save makes on files in dir and others it writes.
func b03calls(dir, trace string) (calls []b03call) {
	lines := strings.Split(trace, "\n")
	files := regexp.QuoteMeta(dir) + `[^">]*`
	inside := false
	for _, l := range lines {
		if strings.Contains(l, `"BEGIN\n"`) {
			inside = true
		} else if strings.Contains(l, `"END `) {
			inside = false
		} else if m := writtenTo.FindStringSubmatch(l); m != nil && inside && !strings.HasPrefix(m[1], "/dev/") {
			files += "|" + regexp.QuoteMeta(m[1])
		}
	}
	reach := regexp.MustCompile(`["<](` + files + `)[">]`)
	nth, inThread := map[string]int{}, map[string]int{}
	for _, l := range lines {
		m := syscallLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		thread, name := m[1], m[2]
		inThread[thread+name]++
		if strings.Contains(l, `"BEGIN\n"`) {
			inside = true
		}
		if strings.Contains(l, `"END `) {
			break
		}
		ps := reach.FindAllStringSubmatch(l, -1)
		if !inside || len(ps) == 0 {
			continue
		}
		nth[name]++
		k := b03call{name: name, nth: nth[name], inThread: inThread[thread+name]}
		for _, p := range ps {
			k.paths = append(k.paths, p[1])
		}
		calls = append(calls, k)
	}
	return
}

// b03pause looks at the backup after a failed save and after the next one.
func b03pause(c *Ctx, dir string, args, env []string, path string, states []model, hs []Hash, prepare func() ([]model, []Hash), what string) {
	prepare()
	cmd := selfChild(c, "B03child", dir, append(append([]string{}, env...), "B_PAUSE=1")...)
	if args != nil {
		strace, _ := exec.LookPath("strace")
		a := append(append([]string{strace}, args...), cmd.Path)
		cmd.Args = append(a, cmd.Args[1:]...)
		cmd.Path = strace
	}
	in, err := cmd.StdinPipe()
	must(c, err, "pipe")
	out, err := cmd.StdoutPipe()
	must(c, err, "pipe")
	must(c, cmd.Start(), "child")
	text := ""
	sc := bufio.NewScanner(out)
	for sc.Scan() {
		text += sc.Text() + "\n"
		if sc.Text() == "PAUSE" {
			failed := strings.Contains(text, "END true")
			i, d := b03which(c, path, states[:2], hs)
			if i < 0 {
				c.Violate(text, "%s: the backup afterwards: %s", what, d)
			} else if !failed && i == 0 {
				c.Violate(text, "%s: the save reports success and left the previous backup", what)
			}
			c.Count("failed_writes", 1)
			if failed {
				c.Count("failed_saves_reported", 1)
			}
			in.Write([]byte("\n"))
		}
	}
	waitOrKill(c, cmd, what)
	if !strings.Contains(text, "PAUSE") {
		c.Note("%s: no pause: %s", what, text)
		return
	}
	if !strings.Contains(text, "NEXT false") {
		c.Violate(text, "%s: the next save fails", what)
	}
	if i, d := b03which(c, path, states[2:], hs); i < 0 {
		c.Violate(text, "%s: the next save: %s", what, d)
	}
}

func waitOrKill(c *Ctx, cmd *exec.Cmd, what string) {
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		c.Inconclusive("%s: the child does not end", what)
	}
}

// b03kills kills a process that saves all the time at random moments.
func b03kills(c *Ctx, dir, path string) {
	r := c.Rand("B03/kills")
	n := 30000
	a, hs := b03model(1, n)
	b, _ := b03model(2, n/2)
	for i := 0; i < 4*c.Scale && !c.TooMany(); i++ {
		os.RemoveAll(dir + "/save")
		os.MkdirAll(dir+"/save", 0755)
		cmd := selfChild(c, "B03loop", dir, "B_PATH="+path, fmt.Sprint("B_N=", n))
		out, err := cmd.StdoutPipe()
		must(c, err, "pipe")
		must(c, cmd.Start(), "child")
		sc := bufio.NewScanner(out)
		ok := sc.Scan() // the first save is complete
		for ok && sc.Text() != "SAVED" {
			c.Violate(sc.Text(), "saving failed")
			ok = sc.Scan()
		}
		go func() {
			for sc.Scan() {
			}
		}()
		time.Sleep(time.Duration(r.Intn(80)) * time.Millisecond)
		cmd.Process.Kill()
		cmd.Wait()
		if !ok {
			c.Inconclusive("child does not save")
		}
		w, d := b03which(c, path, []model{a, b}, hs)
		if w < 0 {
			c.Violate(nil, "killed while saving: the backup afterwards: %s", d)
		}
		c.Count("random_kills", 1)
		c.Eval(fmt.Sprint("kill", i))
	}
}

// ---- B04

func monB04(c *Ctx) {
	b04tracker(c)
	r := c.Rand("B04")
	for i := 0; i < 1+c.Scale/4 && !c.TooMany(); i++ {
		dir := scratch(c, fmt.Sprint("b04-", i))
		cmd := selfChild(c, "B04child", dir, fmt.Sprint("VERIF_SEED=", r.Int63n(1<<40)))
		var errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &errs, &errs
		cmd.Start()
		done := make(chan struct{})
		go func() { cmd.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(300 * time.Second):
			last, _ := os.ReadFile(dir + "/last")
			cmd.Process.Kill()
			<-done
			c.Violate(map[string]any{"file": hx(last[:min(len(last), 3000)])}, "loading a damaged file does not end")
			return
		}
		var o struct {
			Done   bool
			Counts map[string]int64
			Evals  int         `json:"evaluations"`
			Viol   []Violation `json:"violations"`
		}
		b, _ := os.ReadFile(dir + "/child.json")
		json.Unmarshal(b, &o)
		for k, v := range o.Counts {
			if strings.HasPrefix(k, "max_") {
				c.Max(k, int(v))
			} else {
				c.Count(k, int(v))
			}
		}
		for k := 0; k < o.Evals; k++ {
			c.Eval(fmt.Sprint(i, "/", k))
		}
		for _, v := range o.Viol {
			c.Violate(v.Detail, "%s", v.What)
		}
		if !o.Done && len(o.Viol) == 0 {
			last, _ := os.ReadFile(dir + "/last")
			text := errs.String()
			if k := regexp.MustCompile(`(?m)^(panic: |fatal error: |runtime: )`).FindStringIndex(text); k != nil {
				c.Violate(map[string]any{"file": hx(last[:min(len(last), 3000)]), "log": text[k[0]:min(len(text), k[0]+3000)]}, "loading a damaged file of %d bytes crashes: %.200s", len(last), text[k[0]:])
			} else {
				c.Inconclusive("child: %v %s", cmd.ProcessState, lastBytes(text, 3000))
			}
		}
	}
}

// childB04 loads many damaged files. It runs with limited memory.
func childB04(c *Ctx) {
	if !strings.Contains(c.Variant, "race") {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	}
	r := c.Rand("B04")
	path := c.Dir + "/db"
	// valid files to start from
	var good [][]byte
	var members [][][]byte // of each, the ids of one torrent after the other
	for i := 0; i < 6; i++ {
		os.Remove(path)
		db, err := openFile(path)
		must(c, err, "opening without a file")
		m := model{}
		hashes := similarHashes(r, 1+i)
		for k := []int{1, 2, 5, 9, 14, 300}[i]; k > 0; k-- {
			var id PeerID
			r.Read(id[:])
			m.save(hashes[r.Intn(len(hashes))], id, oddPeer(r))
		}
		m.into(db)
		must(c, db.Backup().Save(), "save")
		b, err := os.ReadFile(path)
		must(c, err, "backup")
		good = append(good, b)
		var ids [][]byte
		for _, t := range m {
			for id := range t {
				ids = append(ids, bytes.Clone(id[:]))
			}
		}
		sort.Slice(ids, func(a, b int) bool { return bytes.Compare(ids[a], ids[b]) < 0 })
		members = append(members, ids)
		forget(db, m)
	}
	var ms runtime.MemStats
	load := func(b []byte) (*gomap.Memory, error, uint64) {
		os.WriteFile(path, b, 0644)
		os.WriteFile(c.Dir+"/last", b, 0644)
		runtime.ReadMemStats(&ms)
		before := ms.TotalAlloc
		db, err := openFile(path)
		runtime.ReadMemStats(&ms)
		return db, err, ms.TotalAlloc - before
	}
	_, _, base := load(nil) // what any load allocates
	try := func(kind string, b []byte) {
		if c.TooMany() {
			return
		}
		db, err, mem := load(b)
		c.Count("files_loaded", 1)
		c.Count(kind, 1)
		c.Eval(string(b))
		detail := map[string]any{"kind": kind, "size": len(b), "file": hx(b[:min(len(b), 2000)])}
		c.Max("max_allocated_mb", int(mem>>20))
		if mem > base+64<<20+600*uint64(len(b)) {
			c.Violate(detail, "%s: loading a file of %d bytes allocates %d MB", kind, len(b), mem>>20)
		}
		if err != nil {
			c.Count("refused", 1)
			stats.Seeds.Store(0)
			stats.Leeches.Store(0)
			return
		}
		c.Count("accepted", 1)
		if d := wellFormed(c, db, b); d != "" {
			c.Violate(detail, "%s: the loaded database is not well-formed: %s", kind, d)
		}
		stats.Seeds.Store(0)
		stats.Leeches.Store(0)
	}
	try("empty", nil)
	for gi, g := range good {
		step := 1
		if gi == 5 {
			step = 1 + len(g)/150
		}
		for i := 0; i <= len(g); i += step {
			try("truncated", g[:i:i])
		}
	}
	// peers and torrents that occur twice
	for i := 0; i < 60*c.Scale; i++ {
		gi := 1 + r.Intn(5)
		b, ids := bytes.Clone(good[gi]), members[gi]
		for k := 1 + r.Intn(2); k > 0; k-- {
			x, y := ids[r.Intn(len(ids))], ids[r.Intn(len(ids))]
			b = bytes.Replace(b, x, y, 1)
		}
		try("same_id", b)
	}
	for i := 0; i < 400*c.Scale; i++ {
		g := good[r.Intn(5)]
		b := bytes.Clone(g)
		kind := ""
		switch r.Intn(8) {
		case 0:
			kind = "bit_flip"
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		case 1:
			kind = "bytes"
			for k := 1 + r.Intn(6); k > 0; k-- {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 2: // a number becomes huge or negative, somewhere
			kind = "number"
			at := r.Intn(len(b))
			copy(b[at:], [][]byte{{255, 255, 255, 255}, {255, 255, 255, 127}, {0, 0, 0, 128}, {0, 0, 0, 1}, {0, 0, 0, 64}, {255, 255, 255, 255, 255, 255, 255, 255}, {255, 255, 255, 255, 255, 255, 255, 127}, {0, 0, 0, 0}}[r.Intn(8)])
		case 3:
			kind = "spliced"
			o := good[r.Intn(6)]
			b = append(b[:r.Intn(len(b)):len(b)], o[r.Intn(len(o)):]...)
		case 4:
			kind = "random"
			b = make([]byte, r.Intn([]int{10, 64, 200, 5000}[r.Intn(4)]))
			r.Read(b)
		case 5:
			kind = "small_numbers" // likely to be taken for counts and lengths
			b = make([]byte, r.Intn(400))
			for k := range b {
				b[k] = []byte{0, 0, 0, 0, 1, 2, 4, 16}[r.Intn(8)]
			}
		case 6:
			kind = "repeated"
			b = bytes.Repeat(b, 2+r.Intn(3))
		default:
			kind = "hole"
			i := r.Intn(len(b))
			b = append(b[:i:i], b[min(len(b), i+1+r.Intn(30)):]...)
		}
		try(kind, b)
	}
	// every byte of a small file, every kind of extreme value
	g := good[1]
	for i := range g {
		for _, x := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			b := bytes.Clone(g)
			b[i] = x
			try("byte", b)
		}
		for _, x := range []string{"\xff\xff\xff\xff", "\xff\xff\xff\x7f", "\x00\x00\x00\x40"} {
			b := bytes.Clone(g)
			copy(b[i:], x)
			try("extreme", b)
		}
	}
	c.Flush(true)
	os.Exit(0)
}

// wellFormed checks that the counts of a loaded database match its peers; the
// torrents are sought among all the 20-byte strings of the file.
func wellFormed(c *Ctx, db *gomap.Memory, b []byte) string {
	seen := map[Hash]bool{}
	var s, l int64
	n, peers := 0, 0
	ips := map[netip.Addr]bool{}
	type who struct {
		h  Hash
		id PeerID
	}
	var all []who
	for i := 0; i+20 <= len(b); i++ {
		h := Hash(b[i : i+20])
		if seen[h] {
			continue
		}
		seen[h] = true
		a, d := counts(db, h)
		ls, err := peerList(db, h, 1<<20, false)
		if err != nil {
			return fmt.Sprintf("listing of %x: %v", h, err)
		}
		if a < 0 || d < 0 || a+d != int64(len(ls)) {
			return fmt.Sprintf("torrent %x has counts %d/%d and %d peers", h, a, d, len(ls))
		}
		if dup := dupIDs(ls); dup != "" {
			return dup
		}
		if len(ls) > 0 {
			n++
		}
		peers += len(ls)
		s, l = s+a, l+d
		for _, x := range ls {
			ips[x.IP] = true
			all = append(all, who{h, PeerID([]byte(x.ID))})
		}
	}
	if a, d := stats.Seeds.Load(), stats.Leeches.Load(); !isFast(c) && (a != s || d != l) {
		return fmt.Sprintf("totals %d/%d, the torrents hold %d/%d", a, d, s, l)
	}
	if t := int(stats.IPStats.Total()); !isFast(c) && t != len(ips) {
		return fmt.Sprintf("%d addresses, the peers have %d", t, len(ips))
	}
	if k := db.Hashes(); k < n {
		return fmt.Sprintf("%d torrents, %d with peers", k, n)
	}
	c.Count("peers_of_accepted_files", peers)
	for _, w := range all {
		db.Drop(w.h, w.id)
	}
	for h := range seen {
		if a, d := counts(db, h); a != 0 || d != 0 {
			return fmt.Sprintf("after all its peers left, torrent %x has counts %d/%d", h, a, d)
		}
	}
	if a, d, t := stats.Seeds.Load(), stats.Leeches.Load(), int(stats.IPStats.Total()); !isFast(c) && (a != 0 || d != 0 || t != 0) {
		return fmt.Sprintf("after all peers left the totals are %d/%d and %d addresses", a, d, t)
	}
	return ""
}

// b04tracker starts the tracker on backups it cannot read.
func b04tracker(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	if bin == "" {
		return
	}
	r := c.Rand("B04/tracker")
	dir := scratch(c, "b04t")
	m, hs := b03model(9, 60)
	db, err := openFile(dir + "/good")
	must(c, err, "opening without a file")
	m.into(db)
	must(c, db.Backup().Save(), "save")
	forget(db, m)
	good, err := os.ReadFile(dir + "/good")
	must(c, err, "backup")
	_ = hs
	// limited is the command with limited memory; a loaded file is small
	limited := func(args ...string) []string {
		return append([]string{"-c", "ulimit -v 6291456; exec \"$0\" \"$@\""}, args...)
	}
	bad := bytes.Clone(good)
	for i := 20; i < 60; i++ {
		bad[i] = 0xff
	}
	noise := make([]byte, 3000)
	r.Read(noise)
	cases := map[string][]byte{"one byte": good[:1], "cut at the end": good[:len(good)-1], "cut in the middle": good[:len(good)/2], "overwritten": bad, "noise": noise, "text": []byte("not a database\n"), "directory": nil, "missing": nil}
	for name, b := range cases {
		d := scratch(c, "b04t-"+strings.ReplaceAll(name, " ", ""))
		path := d + "/backup.db"
		switch name {
		case "directory":
			os.Mkdir(path, 0755)
		case "missing":
		default:
			must(c, os.WriteFile(path, b, 0644), "backup")
			probe := selfChild(c, "B04probe", d, "B_PATH="+path)
			out, err := probe.CombinedOutput()
			if !strings.Contains(string(out), "LOADED") {
				if oom := bytes.Contains(out, []byte("out of memory")) || bytes.Contains(out, []byte("panic: ")) || bytes.Contains(out, []byte("fatal error: ")); !oom {
					c.Inconclusive("loading %s: %v %s", name, err, lastBytes(string(out), 2000))
				}
				c.Violate(lastBytes(string(out), 3000), "backup %s: loading it crashes", name)
				continue
			}
			if strings.Contains(string(out), "LOADED true") {
				// this damage happens to be a valid file
				c.Note("%s is a valid backup", name)
				continue
			}
		}
		up, hp := freePort(c), freePort(c)
		p := launch(c, "/bin/sh", d, defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path, "db.backup.frequency", "100ms"), limited(bin, "execute"))
		c.Count("trackers_started_on_"+strings.ReplaceAll(name, " ", "_"), 1)
		c.Eval("tracker " + name)
		if name == "missing" {
			if !p.ready(true, true) {
				c.Violate(lastBytes(p.log(), 2000), "the tracker does not start without a backup")
				continue
			}
			if _, s, l, err := askPeers(hp, Hash{1}); err != nil || s != 0 || l != 0 {
				c.Violate(nil, "started without a backup: %d/%d %v", s, l, err)
			}
			p.stop("tracker without a backup")
			continue
		}
		end := time.Now().Add(60 * time.Second)
		for !p.wait(20*time.Millisecond) && time.Now().Before(end) {
			if tryUDP(up) {
				c.Violate(map[string]any{"file": hx(b[:min(len(b), 200)])}, "backup %s: the tracker serves", name)
				p.kill()
				break
			}
		}
		if !p.exited() {
			c.Violate(lastBytes(p.log(), 2000), "backup %s: the tracker neither serves nor exits", name)
			p.kill()
			continue
		}
		if p.code() == 0 {
			c.Violate(lastBytes(p.log(), 2000), "backup %s: the tracker exits with success", name)
		}
		if x := p.crash(); x != "" && !strings.Contains(x, "FATAL") {
			c.Violate(x, "backup %s: the tracker crashes", name)
		}
		if name == "directory" {
			continue
		}
		now, err := os.ReadFile(path)
		if err != nil || !bytes.Equal(now, b) {
			c.Violate(nil, "backup %s: the unreadable backup is altered (%d bytes, was %d) %v", name, len(now), len(b), err)
		}
	}
}
