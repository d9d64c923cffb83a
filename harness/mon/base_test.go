package mon

import (
	"fmt"
	"net"
	"net/netip"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"go.uber.org/zap"
)

// baseConfig replaces whatever was loaded by known settings.
func baseConfig() {
	c := &config.Configuration{}
	c.LogLevel = "error"
	c.Announce.Base = 1800 * time.Second
	c.Announce.Fuzz = 600 * time.Second
	c.HTTP.Mode = "enabled"
	c.HTTP.IP = ""
	c.HTTP.Timeout.Read = 60 * time.Second
	c.HTTP.Timeout.Write = 60 * time.Second
	c.HTTP.Threads = 2
	c.UDP.Enabled = true
	c.UDP.Threads = 1
	c.UDP.ConnDB.Validate = true
	c.UDP.ConnDB.Trim = 24 * time.Hour
	c.UDP.ConnDB.Expiry = 48 * time.Hour
	c.Numwant.Default = 75
	c.Numwant.Limit = 200
	c.DB.Type = "gomap"
	c.DB.Backup.Type = "none"
	c.DB.Expiry = 48 * time.Hour
	config.Config = c
	config.Logger = zap.NewNop()
	pools.Initialize(int(c.Numwant.Limit))
}

// initPools replaces the pools. Trackers that were stopped may still be busy with
// their last request: an answer is seen before its buffers are back in the pool.
func initPools(limit int) {
	buf := make([]byte, 1<<20)
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		busy := false
		for _, l := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n") {
			if strings.HasPrefix(l, "github.com/crimist/trakx/tracker/udp.") || strings.HasPrefix(l, "github.com/crimist/trakx/tracker/http.") {
				busy = true
			}
		}
		if !busy {
			break
		}
	}
	pools.Initialize(limit)
}

type Hash = storage.Hash
type PeerID = storage.PeerID

// newDB opens an empty in-memory database without periodic jobs.
func newDB(c *Ctx) *gomap.Memory {
	db := &gomap.Memory{}
	if err := db.Init(&gomap.NoneBackup{}); err != nil {
		c.Violate(nil, "opening an empty database failed: %v", err)
		c.Flush(true)
		panic(err)
	}
	return db
}

// stats of a torrent, whatever integer type the tracker uses
func counts(db storage.Database, h Hash) (int64, int64) {
	s, l := db.HashStats(h)
	return int64(s), int64(l)
}

// mpeer is a peer of the reference model.
type mpeer struct {
	Complete bool
	IP       netip.Addr
	Port     uint16
	Seen     int64
}

// model is the reference: what replaying the announces yields.
type model map[Hash]map[PeerID]mpeer

func (m model) save(h Hash, id PeerID, p mpeer) {
	if m[h] == nil {
		m[h] = map[PeerID]mpeer{}
	}
	m[h][id] = p
}

func (m model) drop(h Hash, id PeerID) { delete(m[h], id) }

func (m model) counts(h Hash) (s, l int64) {
	for _, p := range m[h] {
		if p.Complete {
			s++
		} else {
			l++
		}
	}
	return
}

func (m model) totals() (s, l int64) {
	for h := range m {
		a, b := m.counts(h)
		s += a
		l += b
	}
	return
}

func (m model) ips() int {
	set := map[netip.Addr]bool{}
	for _, t := range m {
		for _, p := range t {
			set[p.IP] = true
		}
	}
	return len(set)
}

func (m model) torrents() (n int) {
	for _, t := range m {
		if len(t) > 0 {
			n++
		}
	}
	return
}

// sweep removes what a sweep at now (unix seconds) has to remove.
func (m model) sweep(now, expiry int64) (removed int) {
	for h, t := range m {
		for id, p := range t {
			if now-p.Seen > expiry {
				delete(t, id)
				removed++
			}
		}
		if len(t) == 0 {
			delete(m, h)
		}
	}
	return
}

// listed is an entry of a peer list.
type listed struct {
	ID   string // raw peer id, "" if not given
	IP   netip.Addr
	Port uint16
}

func (l listed) String() string { return fmt.Sprintf("%x@%v:%d", l.ID, l.IP, l.Port) }

// parsePeerDict decodes one entry of a non-compact list.
func parsePeerDict(b []byte) (l listed, err error) {
	v, err := bdecodeAll(b)
	if err != nil {
		return l, fmt.Errorf("entry is not bencoded: %v", err)
	}
	return peerFromValue(v)
}

func peerFromValue(v any) (l listed, err error) {
	if s, ok := v.(string); ok {
		if v, err = bdecodeAll([]byte(s)); err != nil {
			return l, fmt.Errorf("entry is not bencoded: %v", err)
		}
	}
	d, ok := v.(*bdict)
	if !ok {
		return l, fmt.Errorf("entry is no dictionary")
	}
	for _, k := range d.Keys {
		switch k {
		case "peer id", "ip", "port":
		default:
			return l, fmt.Errorf("unexpected key %q", k)
		}
	}
	if id, ok := d.Get("peer id"); ok {
		s, ok := id.(string)
		if !ok || len(s) != 20 {
			return l, fmt.Errorf("bad peer id %v", id)
		}
		l.ID = s
	}
	ipv, _ := d.Get("ip")
	ips, ok := ipv.(string)
	if !ok {
		return l, fmt.Errorf("no ip")
	}
	if l.IP, err = netip.ParseAddr(ips); err != nil {
		return l, err
	}
	pv, _ := d.Get("port")
	p, ok := pv.(int64)
	if !ok || p < 0 || p > 65535 {
		return l, fmt.Errorf("bad port %v", pv)
	}
	l.Port = uint16(p)
	return l, nil
}

func peerList(db storage.Database, h Hash, want uint, noID bool) ([]listed, error) {
	var out []listed
	for _, b := range db.PeerList(h, want, noID) {
		l, err := parsePeerDict(b)
		if err != nil {
			return nil, fmt.Errorf("%v in %q", err, b)
		}
		if noID != (l.ID == "") {
			return nil, fmt.Errorf("peer id given=%v although noID=%v", l.ID != "", noID)
		}
		out = append(out, l)
	}
	return out, nil
}

func parseCompact4(b []byte) ([]listed, error) {
	if len(b)%6 != 0 {
		return nil, fmt.Errorf("IPv4 list of %d bytes", len(b))
	}
	var out []listed
	for ; len(b) > 0; b = b[6:] {
		a, _ := netip.AddrFromSlice(b[:4])
		out = append(out, listed{IP: a, Port: uint16(b[4])<<8 | uint16(b[5])})
	}
	return out, nil
}

func parseCompact6(b []byte) ([]listed, error) {
	if len(b)%18 != 0 {
		return nil, fmt.Errorf("IPv6 list of %d bytes", len(b))
	}
	var out []listed
	for ; len(b) > 0; b = b[18:] {
		a, _ := netip.AddrFromSlice(b[:16])
		out = append(out, listed{IP: a, Port: uint16(b[16])<<8 | uint16(b[17])})
	}
	return out, nil
}

// compactLists copies the database's compact lists and gives the buffers back.
func compactLists(db storage.Database, h Hash, want uint) (l4, l6 []listed, err error) {
	p4, p6 := db.PeerListBytes(h, want)
	l4, err = parseCompact4(p4)
	if err == nil {
		l6, err = parseCompact6(p6)
	}
	pools.Peerlists4.Put(p4)
	pools.Peerlists6.Put(p6)
	return
}

type addrPort struct {
	IP   netip.Addr
	Port uint16
}

// compareFull checks a complete non-compact list against the model.
func compareFull(got []listed, want map[PeerID]mpeer, withID bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d peers listed, want %d", len(got), len(want))
	}
	if withID {
		seen := map[PeerID]bool{}
		for _, l := range got {
			var id PeerID
			copy(id[:], l.ID)
			p, ok := want[id]
			if !ok {
				return fmt.Sprintf("peer %x is listed but no member", id)
			}
			if seen[id] {
				return fmt.Sprintf("peer %x is listed twice", id)
			}
			seen[id] = true
			if p.IP != l.IP || p.Port != l.Port {
				return fmt.Sprintf("peer %x is listed as %v:%d, announced %v:%d", id, l.IP, l.Port, p.IP, p.Port)
			}
		}
		return ""
	}
	ms := map[addrPort]int{}
	for _, p := range want {
		ms[addrPort{p.IP, p.Port}]++
	}
	for _, l := range got {
		k := addrPort{l.IP, l.Port}
		if ms[k]--; ms[k] < 0 {
			return fmt.Sprintf("%v:%d is listed more often than announced", l.IP, l.Port)
		}
	}
	return ""
}

// subMultiset tells whether every listed address is announced often enough.
func subMultiset(got []listed, want map[PeerID]mpeer) string {
	ms := map[addrPort]int{}
	for _, p := range want {
		ms[addrPort{p.IP, p.Port}]++
	}
	for _, l := range got {
		k := addrPort{l.IP, l.Port}
		if ms[k]--; ms[k] < 0 {
			return fmt.Sprintf("%v:%d is listed more often than announced", l.IP, l.Port)
		}
		if l.ID != "" {
			var id PeerID
			copy(id[:], l.ID)
			if p, ok := want[id]; !ok || p.IP != l.IP || p.Port != l.Port {
				return fmt.Sprintf("peer %x is listed as %v:%d but that is not its address", id, l.IP, l.Port)
			}
		}
	}
	return ""
}

func families(want map[PeerID]mpeer) (n4, n6 int) {
	for _, p := range want {
		if p.IP.Is4() {
			n4++
		} else {
			n6++
		}
	}
	return
}

// checkTorrent compares everything the database says of one torrent.
func checkTorrent(db storage.Database, m model, h Hash) string {
	ws, wl := m.counts(h)
	s, l := counts(db, h)
	if s != ws || l != wl {
		return fmt.Sprintf("counts %d/%d, want %d/%d", s, l, ws, wl)
	}
	got, err := peerList(db, h, 1<<20, false)
	if err != nil {
		return err.Error()
	}
	if d := compareFull(got, m[h], true); d != "" {
		return d
	}
	n4, n6 := families(m[h])
	if n4 <= int(config.Config.Numwant.Limit) && n6 <= int(config.Config.Numwant.Limit) {
		l4, l6, err := compactLists(db, h, config.Config.Numwant.Limit)
		if err != nil {
			return err.Error()
		}
		if len(m[h]) <= int(config.Config.Numwant.Limit) {
			if d := compareFull(append(l4, l6...), m[h], false); d != "" {
				return "compact: " + d
			}
		}
	}
	return ""
}

func sortedModel(t map[PeerID]mpeer) string {
	var s []string
	for id, p := range t {
		s = append(s, fmt.Sprintf("%x %v %v:%d", id, p.Complete, p.IP, p.Port))
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// freePort returns a port that is free for TCP and UDP on all addresses.
func freePort(c *Ctx) int {
	for i := 0; i < 200; i++ {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			continue
		}
		port := l.Addr().(*net.TCPAddr).Port
		u, err := net.ListenUDP("udp", &net.UDPAddr{Port: port})
		l.Close()
		if err != nil {
			continue
		}
		u.Close()
		return port
	}
	c.Inconclusive("no free port")
	return 0
}
