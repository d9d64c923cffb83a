package mon

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
)

func init() { register("B07", monB07) }

// recordingBackup is a backup provider that notes when it is asked to save.
type recordingBackup struct {
	gomap.NoneBackup
	start time.Time
	times []time.Duration
	fail  func(n int) bool
	takes time.Duration
	busy  atomic.Int32
	twice bool
}

func (b *recordingBackup) Init(db storage.Database) error { return b.NoneBackup.Init(db) }

func (b *recordingBackup) Save() error {
	if b.busy.Add(1) > 1 {
		b.twice = true
	}
	defer b.busy.Add(-1)
	b.times = append(b.times, time.Since(b.start))
	if b.takes > 0 {
		time.Sleep(b.takes)
	}
	if b.fail != nil && b.fail(len(b.times)) {
		return errors.New("no room")
	}
	return nil
}

func monB07(c *Ctx) {
	b07files(c)
	if !c.Violated() {
		b07real(c)
	}
	if !c.Violated() {
		b07process(c)
	}
	if !c.Violated() {
		b07times(c) // does not return
	}
}

// b07times watches when backups are asked for. The periodic goroutines cannot
// be ended, so this is the end of the process.
func b07times(c *Ctx) {
	r := c.Rand("B07/times")
	synctest.Test(c.T, func(*testing.T) {
		type unit struct {
			iv time.Duration
			b  *recordingBackup
			db *gomap.Memory
		}
		var us []unit
		open := func(iv time.Duration, b *recordingBackup) {
			b.start = time.Now()
			config.Config.DB.Backup.Frequency = iv
			db := &gomap.Memory{}
			if err := db.Init(b); err != nil {
				c.Violate(nil, "opening a database: %v", err)
			}
			us = append(us, unit{iv, b, db})
		}
		ivs := []time.Duration{time.Second, 7 * time.Second, time.Minute, 5 * time.Minute, time.Hour, 24 * time.Hour, 1500 * time.Millisecond}
		for i := 0; i < 4*c.Scale; i++ {
			ivs = append(ivs, time.Duration(1+r.Intn(4000))*time.Second)
		}
		for i, iv := range ivs {
			open(iv, &recordingBackup{})
			switch i % 4 {
			case 0: // every save fails
				open(iv, &recordingBackup{fail: func(int) bool { return true }})
			case 1: // some do
				k := 1 + r.Intn(4)
				open(iv, &recordingBackup{fail: func(n int) bool { return n%k == 0 }})
			case 2: // it takes a while
				open(iv, &recordingBackup{takes: iv / time.Duration(2+r.Intn(5))})
			}
		}
		open(0, &recordingBackup{})
		long := time.Duration(50+r.Intn(40)) * time.Hour
		time.Sleep(long + 100*time.Millisecond)
		for _, u := range us {
			detail := map[string]any{"frequency": u.iv.String(), "after": long.String(), "saves": len(u.b.times)}
			if n := len(u.b.times); n > 0 {
				detail["first"], detail["last"] = u.b.times[0].String(), u.b.times[n-1].String()
			}
			c.Eval(fmt.Sprint("times", u.iv, u.b.takes, u.b.fail != nil))
			if u.iv == 0 {
				if len(u.b.times) != 0 {
					c.Violate(detail, "no periodic backups are configured, %d were taken", len(u.b.times))
				}
				continue
			}
			c.Count("periodic_backups_timed", len(u.b.times))
			if u.b.twice {
				c.Violate(detail, "a periodic backup began before the one before it was over")
			}
			last := time.Duration(0)
			for i, t := range u.b.times {
				gap := t - last
				// the first comes within one interval, then one after the other
				if i == 0 && gap > u.iv || i > 0 && gap != u.iv {
					c.Violate(detail, "backup %d comes %v after the one before it, the frequency is %v", i+1, gap, u.iv)
					break
				}
				last = t
			}
			if long+100*time.Millisecond-last > u.iv {
				c.Violate(detail, "no backup for the last %v, the frequency is %v", long-last, u.iv)
			}
		}
		c.Flush(true)
		os.Exit(0)
	})
}

// b07files: databases that save themselves to files hold at every moment the
// state of the last tick. The goroutine of the periodic backup lives as long
// as its process, so each database is a process.
func b07files(c *Ctx) {
	r := c.Rand("B07/files")
	dir := scratch(c, "b07")
	rounds := 8 * c.Scale
	seeds := make([]int64, rounds)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var mu sync.Mutex
	next := 0
	c.workers(6, "databases saving themselves", func(int) {
		for {
			mu.Lock()
			i := next
			next++
			mu.Unlock()
			if i >= rounds || c.TooMany() {
				return
			}
			d := fmt.Sprint(dir, "/", i)
			must(c, os.MkdirAll(d+"/place", 0o755), "mkdir")
			out, err := selfChild(c, "B07child", d, "B07_PATH="+d+"/place/backup.db", fmt.Sprint("B07_SEED=", seeds[i])).CombinedOutput()
			text := string(out)
			detail := map[string]any{"seed": seeds[i]}
			var n, t int
			done := false
			for _, l := range strings.Split(text, "\n") {
				if v, ok := strings.CutPrefix(l, "BAD "); ok {
					c.Violate(detail, "%s", v)
					done = true
				}
				if k, _ := fmt.Sscanf(l, "COMPARED %d TICKS %d", &n, &t); k == 2 {
					done = true
				}
			}
			if !done {
				detail["output"] = lastBytes(text, 8000)
				if err != nil && strings.Contains(text, "github.com/crimist/trakx/tracker/storage") && strings.Contains(text, "panic: ") {
					c.Violate(detail, "a tracker that backs itself up crashed")
					return
				}
				c.Inconclusive(fmt.Sprintf("child: %v %s", err, lastBytes(text, 2000)))
			}
			c.Count("files_compared_after_a_tick", n)
			c.Count("periodic_backups_written", t)
			c.Eval(fmt.Sprint("file", seeds[i]))
			os.RemoveAll(d)
		}
	})
}

func init() { register("B07child", childB07) }

func childB07(c *Ctx) {
	path := os.Getenv("B07_PATH")
	var seed int64
	fmt.Sscan(os.Getenv("B07_SEED"), &seed)
	r := rand.New(rand.NewSource(seed))
	bad := func(f string, a ...any) {
		fmt.Printf("BAD "+f+"\n", a...)
		os.Exit(0)
	}
	synctest.Test(c.T, func(*testing.T) {
		divisors := []int{1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 20, 24, 25, 30} // of a day
		iv := time.Duration(divisors[r.Intn(len(divisors))]) * time.Second
		config.Config.DB.Backup.Frequency = iv
		config.Config.DB.Expiry = time.Duration(20+r.Intn(100)) * time.Second
		config.Config.DB.Trim = 0
		db, err := openFile(path)
		if err != nil {
			bad("opening: %v", err)
		}
		// changes happen half a second off the ticks
		time.Sleep(500 * time.Millisecond)
		m := model{}
		hashes := similarHashes(r, 6)
		ids := similarIDs(r, 5)
		saved := m.clone() // what the last tick found
		any := false       // whether there was one
		hidden := 0
		compared, ticks := 0, 0
		for sec := 0; sec < 150; sec++ {
			for n := r.Intn(6); n > 0; n-- {
				h, id := hashes[r.Intn(len(hashes))], ids[r.Intn(len(ids))]
				if r.Intn(4) == 0 {
					db.Drop(h, id)
					m.drop(h, id)
				} else {
					p := mpeer{IP: randIP(r), Port: uint16(1 + r.Intn(65535)), Complete: r.Intn(2) == 0}
					db.Save(p.IP, p.Port, p.Complete, h, id)
					p.Seen = time.Now().Unix()
					m.save(h, id, p)
				}
			}
			if r.Intn(40) == 0 {
				db.Trim()
				m.sweep(time.Now().Unix(), int64(config.Config.DB.Expiry/time.Second))
			}
			// now and then the place of the backups is away for a while
			if hidden == 0 && r.Intn(25) == 0 && any {
				if os.Rename(path[:len(path)-len("/backup.db")], path[:len(path)-len("/backup.db")]+".away") == nil {
					hidden = 1 + r.Intn(2*int(iv/time.Second))
				}
			}
			at := time.Now().Add(500 * time.Millisecond)
			tick := at.Truncate(iv).Equal(at)
			time.Sleep(time.Second) // over the tick, if there is one
			if tick && hidden == 0 {
				saved, any = m.clone(), true
				ticks++
			}
			if hidden > 0 {
				if hidden--; hidden == 0 {
					d := path[:len(path)-len("/backup.db")]
					os.RemoveAll(d)
					os.Rename(d+".away", d)
				}
				continue
			}
			// what is in the file?
			_, err := os.Stat(path)
			if !any {
				if err == nil {
					bad("a backup was written %d s after the start, the frequency is %v", sec+1, iv)
				}
				continue
			}
			data, err := os.ReadFile(path)
			if err != nil {
				bad("no backup, although the frequency is %v: %v", iv, err)
			}
			if !tick && r.Intn(8) != 0 {
				continue
			}
			compared++
			if d := b07compare(c, path, data, saved, hashes); d != "" {
				bad("%d s after the start, frequency %v: the file is not the database of the last tick: %s", sec+1, iv, d)
			}
		}
		fmt.Println("COMPARED", compared, "TICKS", ticks)
		os.Exit(0)
	})
}

// b07compare loads a copy of a backup and compares it; virtual time stands still.
func b07compare(c *Ctx, path string, data []byte, m model, hashes []Hash) string {
	if err := os.WriteFile(path+".copy", data, 0o644); err != nil {
		return err.Error()
	}
	freq := config.Config.DB.Backup.Frequency
	config.Config.DB.Backup.Frequency = 0
	db, err := openFile(path + ".copy")
	config.Config.DB.Backup.Frequency, config.Config.DB.Backup.Path = freq, path
	if err != nil {
		return err.Error()
	}
	os.Remove(path + ".copy")
	for _, h := range hashes {
		if d := checkTorrent(db, m, h); d != "" {
			return fmt.Sprintf("torrent %x: %s", h, d)
		}
	}
	return ""
}

// b07process: what a killed tracker had backed up on its own.
func b07process(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	r := c.Rand("B07/process")
	for round := 0; round < 2*c.Scale && !c.TooMany(); round++ {
		dir := scratch(c, fmt.Sprint("b07p", round))
		up, hp := freePort(c), freePort(c)
		path := dir + "/backup.db"
		freq := []string{"200ms", "1s", "0s"}[round%3]
		cfg := defaultPcfg(up, hp).with("db.backup.type", "file", "db.backup.path", path, "db.backup.frequency", freq)
		detail := map[string]any{"frequency": freq}
		p := launch(c, bin, dir, cfg, []string{"execute"})
		if !p.ready(true, true) {
			c.Violate(detail, "the tracker does not start: %s", lastBytes(p.log(), 2000))
			return
		}
		u, err := newUClient("127.0.0.1", up)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		h := Hash{1, byte(round)}
		n := 1 + r.Intn(40)
		for i := 0; i < n; i++ {
			if _, err := u.rpc(pkAnnounce(u.cid, u.next(), annc{Hash: h, ID: PeerID{byte(i)}, Left: int64(i % 2), Port: uint16(1 + i)})); err != nil {
				must(c, err, "announce")
			}
		}
		u.close()
		if freq == "0s" {
			time.Sleep(1500 * time.Millisecond)
			if _, err := os.Stat(path); err == nil {
				c.Violate(detail, "no periodic backups are configured but one was written")
			}
			p.stop("a tracker without periodic backups")
			continue
		}
		// two backups from now, one of them began after the last announce
		old := int64(0)
		if st, err := os.Stat(path); err == nil {
			old = st.ModTime().UnixNano()
		}
		seen := 0
		for end := time.Now().Add(40 * time.Second); seen < 2 && time.Now().Before(end) && !p.exited(); time.Sleep(20 * time.Millisecond) {
			if st, err := os.Stat(path); err == nil && st.ModTime().UnixNano() != old {
				old = st.ModTime().UnixNano()
				seen++
			}
		}
		if seen < 2 {
			c.Violate(detail, "%d backups in 40 s, the frequency is %s", seen, freq)
		}
		p.cmd.Process.Kill()
		p.wait(20 * time.Second)
		if c.Violated() {
			return
		}
		db, err := openFile(path)
		if err != nil {
			c.Violate(detail, "the backup of a killed tracker: %v", err)
			return
		}
		s, l := counts(db, h)
		if s+l != int64(n) || l != int64(n/2) {
			c.Violate(detail, "the tracker backed %d/%d peers up, %d announced", s, l, n)
		}
		c.Count("killed_after_a_periodic_backup", 1)
		c.Eval(fmt.Sprint("process", freq, n))
	}
}

// b07real counts backups on the real clock, where ticks are never exact.
func b07real(c *Ctx) {
	bin := os.Getenv("TRAKX_BIN")
	dir := scratch(c, "b07real")
	var ps []*proc
	const n = 4
	for i := 0; i < n; i++ {
		d := fmt.Sprint(dir, "/", i)
		must(c, os.MkdirAll(d, 0o755), "mkdir")
		cfg := defaultPcfg(freePort(c), freePort(c)).with("db.backup.type", "file", "db.backup.path", d+"/backup.db", "db.backup.frequency", "500ms")
		p := launch(c, bin, d, cfg, []string{"execute"})
		if !p.ready(true, true) {
			c.Violate(nil, "the tracker does not start: %s", lastBytes(p.log(), 2000))
			return
		}
		ps = append(ps, p)
	}
	defer func() {
		for _, p := range ps {
			p.kill()
		}
	}()
	for attempt := 0; attempt < 4; attempt++ {
		// count distinct files for ten seconds, and how long this loop was kept from looking
		var saves [n]int
		var last [n]int64
		var lag time.Duration
		start := time.Now()
		for prev := start; time.Since(start) < 10*time.Second; {
			for i := range ps {
				if st, err := os.Stat(fmt.Sprint(dir, "/", i, "/backup.db")); err == nil && st.ModTime().UnixNano() != last[i] {
					last[i] = st.ModTime().UnixNano()
					saves[i]++
				}
			}
			time.Sleep(10 * time.Millisecond)
			now := time.Now()
			lag, prev = max(lag, now.Sub(prev)), now
		}
		if lag > 200*time.Millisecond {
			c.Count("too_busy_to_count", 1)
			continue
		}
		for i, k := range saves {
			if ps[i].exited() {
				c.Violate(nil, "the tracker ended: %s", lastBytes(ps[i].log(), 2000))
			}
			if k < 16 || k > 24 { // 20 and the one that was there
				c.Violate(map[string]any{"saves": saves, "lag": lag.String()}, "%d backups in ten seconds, one is due every 500 ms", k)
			}
			c.Count("real_time_backups", k)
		}
		c.Eval(fmt.Sprint("real", saves))
		return
	}
	c.Note("the machine was too busy to count backups on the real clock")
}
