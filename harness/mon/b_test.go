package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/netip"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	gomap "github.com/crimist/trakx/tracker/storage/map"
)

func init() {
	register("B01", monB01)
	register("B01child", childB01)
	register("B02", monB02)
}

// openFile opens a database backed by the file, loading it.
func openFile(path string) (*gomap.Memory, error) {
	config.Config.DB.Backup.Path = path
	db := &gomap.Memory{}
	return db, db.Init(&gomap.FileBackup{})
}

// forget resets the published figures before another database is opened in
// this process, as a new process would.
func forget(db *gomap.Memory, m model) {
	dropAll(db, m)
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
}

// checkAll compares all torrents and the totals with the model.
func checkAll(c *Ctx, db *gomap.Memory, m model, hashes []Hash) string {
	for _, h := range hashes {
		if d := checkTorrent(db, m, h); d != "" {
			return fmt.Sprintf("torrent %x: %s", h, d)
		}
		c.Count("torrents_compared", 1)
	}
	if n := db.Hashes(); n < m.torrents() || n > len(hashes) {
		return fmt.Sprintf("%d torrents, want %d", n, m.torrents())
	}
	return totalsProblem(c, m)
}

func (m model) clone() model {
	n := model{}
	for h, t := range m {
		n[h] = map[PeerID]mpeer{}
		for id, p := range t {
			n[h][id] = p
		}
	}
	return n
}

func (m model) peers() (n int) {
	for _, t := range m {
		n += len(t)
	}
	return
}

// oddPeer draws a peer with values near the edges of their encoding.
func oddPeer(r *rand.Rand) mpeer {
	p := mpeer{Complete: r.Intn(2) == 0, IP: randIP(r), Port: uint16(1 + r.Intn(65535))}
	switch r.Intn(6) {
	case 0:
		p.Port = []uint16{1, 255, 256, 0x0100, 0xff00, 65535}[r.Intn(6)]
	case 1:
		p.IP = []netip.Addr{mustAddr("0.0.0.0"), mustAddr("255.255.255.255"), mustAddr("::"), mustAddr("::1"), mustAddr("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"), mustAddr("::a00:1"), mustAddr("10.0.0.1"), mustAddr("2001:db8::ffff:a00:1")}[r.Intn(8)]
	}
	return p
}

func monB01(c *Ctx) {
	step, stop := c.watchdog("saving and loading")
	for i := 0; i < 25*c.Scale && !c.TooMany(); i++ {
		c.bubble(func() { b01seq(c, i, step) })
	}
	stop()
	if !c.Violated() {
		b01places(c)
	}
	if !c.Violated() {
		b01process(c)
	}
}

// b01places saves to and loads from paths of many shapes.
func b01places(c *Ctx) {
	r := c.Rand("B01/places")
	dir := scratch(c, "b01places")
	other, err := os.MkdirTemp("/dev/shm", "vmon") // another file system
	if err == nil {
		defer os.RemoveAll(other)
	} else {
		other = dir + "/other"
	}
	was, err := os.Getwd()
	must(c, err, "working directory")
	defer os.Chdir(was)
	cwd, tmp := dir+"/cwd", dir+"/tmp"
	for _, d := range []string{cwd, cwd + "/sub", tmp, dir + "/real", other} {
		must(c, os.MkdirAll(d, 0755), "directory")
	}
	must(c, os.Symlink(dir+"/real", dir+"/link"), "link")
	must(c, os.Chdir(cwd), "working directory")
	must(c, os.Setenv("TMPDIR", tmp), "TMPDIR")
	defer os.Unsetenv("TMPDIR")
	places := []string{dir + "/plain.db", "name.db", "./dotted.db", "sub/name.db", "../up.db", dir + "/link/name.db", other + "/name.db", dir + "/with space.db", dir + "/100%d%s.db", dir + "/é.db", dir + "/noextension", dir + "/.hidden", dir + "//double.db", dir + "/" + strings.Repeat("l", 200)}
	for k, path := range places {
		var hs []Hash
		for round := 0; round < 2; round++ { // over a missing and over an earlier backup
			m := model{}
			hs = append(hs, similarHashes(r, 2)...)
			for n := 1 + r.Intn(60); n > 0; n-- {
				var id PeerID
				r.Read(id[:])
				m.save(hs[len(hs)-1-r.Intn(2)], id, oddPeer(r))
			}
			config.Config.DB.Backup.Path = dir + "/none"
			db := &gomap.Memory{}
			must(c, db.Init(&gomap.FileBackup{}), "opening without a file")
			m.into(db)
			config.Config.DB.Backup.Path = path
			err := db.Backup().Save()
			forget(db, m)
			if err != nil {
				c.Violate(path, "saving to place %d fails: %v", k, err)
				continue
			}
			c.Eval(fmt.Sprint("place ", k, round))
			if db, err = openFile(path); err != nil {
				c.Violate(path, "loading from place %d fails: %v", k, err)
				continue
			}
			if d := checkAll(c, db, m, uniqueHashes(hs)); d != "" {
				c.Violate(path, "restored from place %d: %s", k, d)
			}
			forget(db, m)
			c.Count("places_saved_to", 1)
		}
	}
}

func b01seq(c *Ctx, seq int, step func()) {
	r := c.Rand(fmt.Sprint("B01/", seq))
	dir := scratch(c, "b01")
	path := fmt.Sprintf("%s/db%d", dir, seq)
	defer os.Remove(path)
	defer os.Remove(path + "2")
	expiry := []int64{5, 60, 3600, 86400}[r.Intn(4)]
	config.Config.DB.Expiry = time.Duration(expiry) * time.Second
	defer func() { config.Config.DB.Expiry = 48 * time.Hour }()
	db, err := openFile(path)
	if err != nil {
		c.Violate(nil, "opening without a file failed: %v", err)
		return
	}
	m := model{}
	hashes := similarHashes(r, 1+r.Intn(12))
	big := r.Intn(8) == 0
	n := r.Intn(60)
	if big {
		n = 3000
	}
	if seq == 0 {
		n = 0 // an empty database too
	}
	for i := 0; i < n; i++ {
		h := hashes[r.Intn(len(hashes))]
		var id PeerID
		if r.Intn(3) == 0 {
			id = PeerID(hashes[r.Intn(len(hashes))])
		} else {
			r.Read(id[:])
		}
		if r.Intn(6) == 0 {
			time.Sleep(time.Duration(r.Int63n(expiry)) * time.Second / 8)
		}
		p := oddPeer(r)
		p.Seen = time.Now().Unix()
		db.Save(p.IP, p.Port, p.Complete, h, id)
		m.save(h, id, p)
		if r.Intn(5) == 0 {
			db.Drop(h, id)
			m.drop(h, id)
		}
		step()
	}
	detail := map[string]any{"sequence": seq, "peers": m.peers()}
	fail := func(f string, a ...any) { c.Violate(detail, f, a...) }
	if d := checkAll(c, db, m, hashes); d != "" {
		fail("before saving: %s", d)
		return
	}
	if err := db.Backup().Save(); err != nil {
		fail("saving failed: %v", err)
		return
	}
	if d := checkAll(c, db, m, hashes); d != "" {
		fail("saving altered the database: %s", d)
		return
	}
	step()
	forget(db, m)
	if r.Intn(2) == 0 { // time passes between the processes
		time.Sleep(time.Duration(1+r.Int63n(expiry)) * time.Second)
	}
	db, err = openFile(path)
	if err != nil {
		fail("loading failed: %v", err)
		return
	}
	if d := checkAll(c, db, m, hashes); d != "" {
		fail("after loading: %s", d)
		return
	}
	step()
	// saving what was loaded and loading that
	config.Config.DB.Backup.Path = path + "2"
	if err := db.Backup().Save(); err != nil {
		fail("saving again failed: %v", err)
		return
	}
	forget(db, m)
	if db, err = openFile(path + "2"); err != nil {
		fail("loading the second backup failed: %v", err)
		return
	}
	if d := checkAll(c, db, m, hashes); d != "" {
		fail("after a second save and load: %s", d)
		return
	}
	c.Count("restored_databases", 2)
	c.Count("restored_peers", 2*m.peers())
	c.Eval(fmt.Sprint(seq, n, m.peers()))
	// the restored database lives on
	for i := 0; i < 12 && n > 0; i++ {
		if r.Intn(2) == 0 {
			h := hashes[r.Intn(len(hashes))]
			id := PeerID(hashes[r.Intn(len(hashes))])
			if r.Intn(2) == 0 {
				db.Drop(h, id)
				m.drop(h, id)
			} else {
				p := oddPeer(r)
				p.Seen = time.Now().Unix()
				db.Save(p.IP, p.Port, p.Complete, h, id)
				m.save(h, id, p)
			}
		}
		time.Sleep(time.Duration(1+r.Int63n(expiry)) * time.Second / 4)
		removed := m.sweep(time.Now().Unix(), expiry)
		db.Trim()
		c.Count("restored_peers_expired", removed)
		if d := checkAll(c, db, m, hashes); d != "" {
			fail("after %d steps with a restored database: %s", i+1, d)
			return
		}
		step()
	}
	forget(db, m)
	if seq == 1 {
		c.Sample(detail)
	}
}

// dumpPeer is what a child process reports of a peer.
type dumpPeer struct {
	Torrent, ID, Addr string
	Port              uint16
}

type dumpOut struct {
	Err            string
	Peers          []dumpPeer
	Counts         map[string][2]int64
	Seeds, Leeches int64
	IPs, Hashes    int
}

func dumpModel(m model, fast bool) (o dumpOut) {
	o.Counts = map[string][2]int64{}
	for h, t := range m {
		for id, p := range t {
			o.Peers = append(o.Peers, dumpPeer{hx(h[:]), hx(id[:]), p.IP.String(), p.Port})
		}
		a, b := m.counts(h)
		o.Counts[hx(h[:])] = [2]int64{a, b}
	}
	o.Seeds, o.Leeches = m.totals()
	o.IPs, o.Hashes = m.ips(), m.torrents()
	sortDump(o.Peers)
	return
}

func sortDump(p []dumpPeer) {
	sort.Slice(p, func(i, j int) bool { return p[i].Torrent+p[i].ID < p[j].Torrent+p[j].ID })
}

func dumpDB(db *gomap.Memory, hashes []Hash) (o dumpOut) {
	o.Counts = map[string][2]int64{}
	for _, h := range hashes {
		ls, err := peerList(db, h, 1<<20, false)
		if err != nil {
			o.Err = err.Error()
		}
		for _, l := range ls {
			o.Peers = append(o.Peers, dumpPeer{hx(h[:]), hx([]byte(l.ID)), l.IP.String(), l.Port})
		}
		a, b := counts(db, h)
		o.Counts[hx(h[:])] = [2]int64{a, b}
	}
	o.Seeds, o.Leeches = stats.Seeds.Load(), stats.Leeches.Load()
	o.IPs, o.Hashes = int(stats.IPStats.Total()), db.Hashes()
	sortDump(o.Peers)
	return
}

// selfChild runs a monitor of this executable as a child process.
func selfChild(c *Ctx, mon, dir string, env ...string) *exec.Cmd {
	os.MkdirAll(dir+"/home", 0755)
	cmd := exec.Command(os.Getenv("VMON_SELF"), "-test.run", "^TestMon$", "-test.timeout", "0")
	if os.Getenv("VMON_SELF") == "" {
		cmd.Path, _ = os.Executable()
	}
	cmd.Dir = dir
	cmd.Env = append(procEnv(dir+"/home"), "VMON="+mon, "VMON_DIR="+dir, "VMON_OUT="+dir+"/child.json", "VERIF_SEED="+fmt.Sprint(c.Seed), "VMON_VARIANT="+c.Variant, "VMON_SCALE="+fmt.Sprint(c.Scale))
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// childB01 loads a backup, reports it and saves it again.
func childB01(c *Ctx) {
	var hashes []Hash
	b, err := os.ReadFile(os.Getenv("B_HASHES"))
	must(c, err, "hashes")
	must(c, json.Unmarshal(b, &hashes), "hashes")
	path := os.Getenv("B_PATH")
	db, err := openFile(path)
	var o dumpOut
	if err != nil {
		o.Err = err.Error()
	} else {
		o = dumpDB(db, hashes)
		config.Config.DB.Backup.Path = path + ".child"
		if err := db.Backup().Save(); err != nil {
			o.Err = "saving: " + err.Error()
		}
	}
	out, _ := json.Marshal(o)
	os.WriteFile(os.Getenv("B_OUT"), out, 0644)
}

func b01process(c *Ctx) {
	r := c.Rand("B01/process")
	bin := os.Getenv("TRAKX_BIN")
	for round := 0; round < 3+c.Scale/2 && !c.TooMany(); round++ {
		dir := scratch(c, fmt.Sprint("b01p", round))
		path := dir + "/backup.db"
		db, err := openFile(path)
		if err != nil {
			c.Violate(nil, "opening without a file failed: %v", err)
			return
		}
		m := model{}
		hashes := similarHashes(r, 6)
		for i := []int{40, 1, 2500, 300}[round%4]; i > 0; i-- {
			p := oddPeer(r)
			p.Seen = time.Now().Unix()
			var id PeerID
			r.Read(id[:])
			h := hashes[r.Intn(5)]
			db.Save(p.IP, p.Port, p.Complete, h, id)
			m.save(h, id, p)
		}
		if err := db.Backup().Save(); err != nil {
			c.Violate(nil, "saving failed: %v", err)
			return
		}
		forget(db, m)
		want := dumpModel(m, false)
		// a child loads it, and its backup is loaded here
		hb, _ := json.Marshal(hashes)
		os.WriteFile(dir+"/hashes", hb, 0644)
		cmd := selfChild(c, "B01child", dir, "B_HASHES="+dir+"/hashes", "B_PATH="+path, "B_OUT="+dir+"/dump")
		out, err := cmd.CombinedOutput()
		var got dumpOut
		b, rerr := os.ReadFile(dir + "/dump")
		if rerr != nil || json.Unmarshal(b, &got) != nil {
			c.Violate(lastBytes(string(out), 3000), "a new process fails to load %d peers: %v", m.peers(), err)
			continue
		}
		for k, v := range got.Counts {
			if v == [2]int64{} {
				delete(got.Counts, k)
			}
		}
		if isFast(c) {
			got.IPs = want.IPs
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Violate(map[string]any{"want": shorten(want), "got": shorten(got)}, "a new process loads something else than was saved")
			continue
		}
		c.Count("restored_in_a_new_process", m.peers())
		c.Eval(fmt.Sprint("process", round))
		db, err = openFile(path + ".child")
		if err != nil {
			c.Violate(nil, "the backup of a new process cannot be loaded: %v", err)
			continue
		}
		if d := checkAll(c, db, m, hashes); d != "" {
			c.Violate(nil, "the backup of a new process differs: %s", d)
		}
		forget(db, m)
		if bin == "" {
			continue
		}
		// the tracker itself starts from it
		up, hp := freePort(c), freePort(c)
		p := launch(c, bin, dir+"/real", defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path, "numwant.limit", "100000", "expvarinterval", "100ms"), []string{"execute"})
		if !p.ready(true, true) {
			c.Violate(lastBytes(p.log(), 3000), "the tracker does not start from a backup of %d peers", m.peers())
			continue
		}
		for _, h := range hashes {
			ls, s, l, err := askPeers(hp, h)
			ws, wl := m.counts(h)
			if err != nil || s != ws || l != wl {
				c.Violate(nil, "restarted tracker: torrent %x has %d/%d, want %d/%d %v", h, s, l, ws, wl, err)
				break
			}
			if d := compareFull(ls, m[h], true); d != "" {
				c.Violate(nil, "restarted tracker: torrent %x: %s", h, d)
				break
			}
			c.Count("torrents_compared", 1)
		}
		c.Count("restored_by_the_tracker", m.peers())
		p.stop("restarted tracker")
		db, err = openFile(path)
		if err != nil {
			c.Violate(nil, "the backup of the restarted tracker cannot be loaded: %v", err)
			continue
		}
		if d := checkAll(c, db, m, hashes); d != "" {
			c.Violate(nil, "the backup of the restarted tracker differs: %s", d)
		}
		forget(db, m)
	}
}

func shorten(o dumpOut) dumpOut {
	if len(o.Peers) > 40 {
		o.Peers = o.Peers[:40]
	}
	return o
}

// ---- B02

// b02state is a state of a torrent and the time it may have been observed.
type b02state struct {
	from, to int64 // from: its operation was called; to: the next one returned
	peers    map[PeerID]mpeer
}

type b02save struct {
	from, to int64
	data     []byte
}

func monB02(c *Ctx) {
	for round := 0; round < 8*c.Scale && !c.TooMany(); round++ {
		b02round(c, round)
	}
	for round := 0; round < 2*c.Scale && !c.TooMany(); round++ {
		b02large(c, round)
	}
}

// b02print identifies a state of a torrent without keeping it.
type b02print struct {
	sum             uint64
	seeds, leechers int64
}

func (f *b02print) add(id PeerID, p mpeer, sign int) {
	h := fnv.New64a()
	h.Write(id[:])
	fmt.Fprint(h, p.IP, p.Port)
	if sign > 0 {
		f.sum += h.Sum64()
	} else {
		f.sum -= h.Sum64()
	}
	if p.Complete {
		f.seeds += int64(sign)
	} else {
		f.leechers += int64(sign)
	}
}

// b02large saves torrents of thousands of peers, each of which one writer
// keeps changing, so that writing one takes long.
func b02large(c *Ctx, round int) {
	r := c.Rand(fmt.Sprint("B02/large/", round))
	dir := scratch(c, "b02")
	path := dir + "/large"
	os.Remove(path)
	db, err := openFile(path)
	if err != nil {
		c.Violate(nil, "opening without a file failed: %v", err)
		return
	}
	const torrents = 3
	type state struct {
		from, to int64
		b02print
	}
	var hashes [torrents]Hash
	var sizes [torrents]int
	var logs [torrents][]state
	final := model{}
	peers := [torrents]map[PeerID]mpeer{}
	version := func(t, i, seq int) (PeerID, mpeer) {
		return PeerID{byte(t), byte(i), byte(i >> 8), 9}, mpeer{IP: netip.AddrFrom4([4]byte{10, byte(seq >> 16), byte(seq >> 8), byte(seq)}), Port: uint16(1 + seq%65535), Complete: seq%3 == 0}
	}
	for t := range hashes {
		hashes[t] = Hash{byte(t), byte(round), 0x1b}
		sizes[t] = []int{150, 700, 3000}[r.Intn(3)]
		peers[t] = map[PeerID]mpeer{}
		first := state{to: 1 << 62}
		for i := 0; i < sizes[t]; i++ {
			id, p := version(t, i, i)
			db.Save(p.IP, p.Port, p.Complete, hashes[t], id)
			peers[t][id] = p
			first.add(id, p, 1)
		}
		logs[t] = []state{first}
	}
	var left atomic.Int32
	left.Store(1)
	var saves []b02save
	backup := db.Backup()
	c.workers(torrents+1, "saving large torrents under traffic", func(k int) {
		r := rand.New(rand.NewSource(int64(round)<<20 + int64(k)<<8 + c.Seed))
		if k == torrents {
			defer left.Store(0)
			for i := 0; i < 10 && !c.TooMany(); i++ {
				from := clock()
				err := backup.Save()
				b, rerr := os.ReadFile(path)
				if err != nil || rerr != nil {
					c.Violate(nil, "saving large torrents failed: %v %v", err, rerr)
					return
				}
				saves = append(saves, b02save{from, clock(), b})
			}
			return
		}
		for seq := sizes[k]; left.Load() > 0 && seq < 400000; seq++ {
			id, p := version(k, r.Intn(sizes[k]), seq)
			log := &logs[k]
			last := &(*log)[len(*log)-1]
			next := state{from: clock(), to: 1 << 62, b02print: last.b02print}
			old, ok := peers[k][id]
			if ok {
				next.add(id, old, -1)
			}
			if ok && r.Intn(3) == 0 {
				delete(peers[k], id)
				db.Drop(hashes[k], id)
			} else {
				peers[k][id] = p
				next.add(id, p, 1)
				db.Save(p.IP, p.Port, p.Complete, hashes[k], id)
			}
			last.to = clock()
			*log = append(*log, next)
		}
	})
	for t, h := range hashes {
		final[h] = peers[t]
	}
	if d := checkAll(c, db, final, hashes[:]); d != "" {
		c.Violate(nil, "after saves of large torrents under traffic the live database is wrong: %.1000s", d)
	}
	forget(db, final)
	for i, s := range saves {
		must(c, os.WriteFile(path, s.data, 0644), "backup")
		l, err := openFile(path)
		if err != nil {
			c.Violate(map[string]any{"round": round, "save": i}, "a backup of large torrents taken under traffic cannot be loaded: %v", err)
			return
		}
		loaded := model{}
		for t, h := range hashes {
			var got b02print
			ls, err := peerList(l, h, 1<<20, false)
			if err != nil {
				c.Violate(nil, "peer list of a loaded torrent: %v", err)
			}
			for _, x := range ls {
				id, p := PeerID([]byte(x.ID)), mpeer{IP: x.IP, Port: x.Port}
				got.add(id, p, 1)
				loaded.save(h, id, p)
			}
			got.seeds, got.leechers = counts(l, h)
			n, found := 0, false
			for _, st := range logs[t] {
				if st.from <= s.to && st.to >= s.from {
					n++
					found = found || st.b02print == got
				}
			}
			if !found {
				c.Violate(map[string]any{"round": round, "save": i}, "a torrent of %d peers (%d seeders, %d leechers) in a backup is in none of the %d states it had during the save", len(ls), got.seeds, got.leechers, n)
			}
			if n > 1 {
				c.Count("large_torrents_changed_during_a_save", 1)
			}
			c.Max("states_of_a_large_torrent_during_a_save", n)
		}
		forget(l, loaded)
		if c.Violated() {
			return
		}
	}
	c.Count("backups_of_large_torrents", len(saves))
	c.Eval(fmt.Sprint("large", round, sizes))
}

func b02round(c *Ctx, round int) {
	r := c.Rand(fmt.Sprint("B02/", round))
	dir := scratch(c, "b02")
	path := dir + "/db"
	os.Remove(path)
	db, err := openFile(path)
	if err != nil {
		c.Violate(nil, "opening without a file failed: %v", err)
		return
	}
	writers, savers := 4, 1+r.Intn(3)
	per := 1 + r.Intn(8) // torrents per writer
	few := 1 + r.Intn(6) // peers a writer uses in a torrent
	hashes := make([]Hash, writers*per+40)
	for i := range hashes {
		r.Read(hashes[i][:])
		if i > 0 && r.Intn(2) == 0 {
			hashes[i] = hashes[i-1]
			hashes[i][r.Intn(20)]++
		}
	}
	hashes = uniqueHashes(hashes)
	writersN := min(writers*per, len(hashes)-1)
	// quiet torrents nobody touches during the saves
	quiet := model{}
	for _, h := range hashes[writersN:] {
		for i := r.Intn(8); i >= 0; i-- {
			var id PeerID
			r.Read(id[:])
			p := oddPeer(r)
			db.Save(p.IP, p.Port, p.Complete, h, id)
			quiet.save(h, id, p)
		}
	}
	logs := make([][]b02state, writersN)
	var saves []b02save
	var mu sync.Mutex
	inflight := map[int]int64{}
	var over, left atomic.Int32
	left.Store(int32(savers))
	backup := db.Backup()
	c.workers(writers+savers+1, "saving under traffic", func(k int) {
		r := rand.New(rand.NewSource(int64(round)<<20 + int64(k)<<8 + c.Seed))
		switch {
		case k < writers:
			for t := k; t < writersN; t += writers {
				logs[t] = []b02state{{from: 0, to: 1 << 62, peers: map[PeerID]mpeer{}}}
			}
			seq := uint16(0)
			for n := 0; (left.Load() > 0 || n < 50) && n < 1500; n++ {
				t := k + writers*r.Intn((writersN-k+writers-1)/writers)
				if t >= writersN {
					continue
				}
				h := hashes[t]
				log := &logs[t]
				last := &(*log)[len(*log)-1]
				id := PeerID{byte(t), byte(t >> 8), byte(r.Intn(few)), 7}
				next := map[PeerID]mpeer{}
				for a, b := range last.peers {
					next[a] = b
				}
				from := clock()
				if _, ok := next[id]; ok && r.Intn(5) < 2 {
					delete(next, id)
					db.Drop(h, id)
				} else {
					seq++
					p := mpeer{IP: netip.AddrFrom4([4]byte{10, byte(k), byte(seq >> 8), byte(seq)}), Port: 1 + seq, Complete: r.Intn(2) == 0}
					if r.Intn(4) == 0 {
						p.IP = netip.AddrFrom16([16]byte{0x20, byte(k), 15: byte(seq), 14: byte(seq >> 8)})
					}
					next[id] = p
					db.Save(p.IP, p.Port, p.Complete, h, id)
				}
				last.to = clock()
				*log = append(*log, b02state{from: from, to: 1 << 62, peers: next})
				if r.Intn(16) == 0 {
					time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
				}
			}
		case k < writers+savers:
			for i := 0; i < 12; i++ {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				mu.Lock()
				from := clock()
				inflight[k] = from
				for _, f := range inflight {
					from = min(from, f)
				}
				mu.Unlock()
				err := backup.Save()
				b, rerr := os.ReadFile(path)
				to := clock()
				mu.Lock()
				delete(inflight, k)
				if err != nil || rerr != nil {
					c.Violate(nil, "saving under traffic failed: %v %v", err, rerr)
				} else {
					saves = append(saves, b02save{from, to, b})
				}
				mu.Unlock()
				if c.TooMany() {
					break
				}
			}
			if left.Add(-1) == 0 {
				over.Store(1)
			}
		default:
			for over.Load() == 0 {
				db.Trim()
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			}
		}
	})
	// the live database lost nothing
	final := quiet.clone()
	nstates := 0
	for t := range logs {
		final[hashes[t]] = logs[t][len(logs[t])-1].peers
		nstates += len(logs[t])
	}
	if d := checkAll(c, db, final, hashes); d != "" {
		c.Violate(map[string]any{"round": round}, "after saves under traffic the live database is wrong: %s", d)
	}
	// a last quiet save
	from := clock()
	if err := backup.Save(); err != nil {
		c.Violate(nil, "saving failed: %v", err)
	}
	b, err := os.ReadFile(path)
	must(c, err, "backup")
	saves = append(saves, b02save{from, clock(), b})
	forget(db, final)
	seen := map[string]bool{}
	for i, s := range saves {
		must(c, os.WriteFile(path, s.data, 0644), "backup")
		l, err := openFile(path)
		if err != nil {
			c.Violate(map[string]any{"round": round, "save": i}, "a backup taken under traffic cannot be loaded: %v", err)
			return
		}
		loaded := model{}
		for t, h := range hashes {
			var d string
			if t >= writersN {
				d = checkTorrent(l, quiet, h)
				if d != "" {
					d = "an untouched torrent: " + d
				}
			} else {
				d = b02judge(c, l, h, logs[t], s)
			}
			if d != "" {
				c.Violate(map[string]any{"round": round, "save": i, "torrent": hx(h[:])}, "backup taken under traffic: %s", d)
				break
			}
			ls, _ := peerList(l, h, 1<<20, false)
			for _, x := range ls {
				loaded.save(h, PeerID([]byte(x.ID)), mpeer{IP: x.IP})
			}
			c.Count("torrent_states_judged", 1)
		}
		seen[string(s.data)] = true
		forget(l, loaded)
		if c.Violated() {
			break
		}
	}
	c.Count("backups_judged", len(saves))
	c.Count("distinct_backups", len(seen))
	c.Count("operations_during_saves", nstates)
	c.Eval(fmt.Sprint(round, nstates, len(seen)))
}

func uniqueHashes(hs []Hash) (out []Hash) {
	seen := map[Hash]bool{}
	for _, h := range hs {
		if !seen[h] {
			seen[h] = true
			out = append(out, h)
		}
	}
	return
}

// b02judge looks for a state the torrent had during the save.
func b02judge(c *Ctx, db *gomap.Memory, h Hash, log []b02state, s b02save) string {
	var candidates []string
	n := 0
	first := ""
	for i := range log {
		if log[i].from > s.to || log[i].to < s.from {
			continue
		}
		n++
		d := checkTorrent(db, model{h: log[i].peers}, h)
		if d == "" {
			if n > 1 {
				c.Count("states_that_changed_during_a_save", 1)
			}
			return ""
		}
		first = d
		if len(candidates) < 5 {
			candidates = append(candidates, sortedModel(log[i].peers))
		}
	}
	ls, err := peerList(db, h, 1<<20, false)
	a, b := counts(db, h)
	return fmt.Sprintf("a torrent is in none of the %d states it had during the save: %d/%d %v %v (last: %s; states: %s)", n, a, b, ls, err, first, strings.Join(candidates, " | "))
}
