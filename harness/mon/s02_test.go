package mon

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/netip"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/crimist/trakx/config"
)

func init() { register("S02", monS02) }

// An operation on one torrent.
type linIn struct {
	Op   string // save drop stats list own
	ID   int
	Done bool
	Port uint16
}

type linOut struct {
	S, L int64
	List string // sorted "id:port" entries
}

// The state is a string "id,role,port;..." sorted by id, so porcupine can
// compare states cheaply.
type linState struct {
	ports [8]uint16 // 0 = not a member
	done  [8]bool
}

func (s linState) counts() (a, b int64) {
	for i, p := range s.ports {
		if p != 0 {
			if s.done[i] {
				a++
			} else {
				b++
			}
		}
	}
	return
}

func (s linState) list() string {
	var l []string
	for i, p := range s.ports {
		if p != 0 {
			l = append(l, fmt.Sprintf("%d:%d", i, p))
		}
	}
	return strings.Join(l, " ")
}

var linModel = porcupine.Model{
	Init: func() any { return linState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i := st.(linState), in.(linIn)
		switch i.Op {
		case "save":
			s.ports[i.ID], s.done[i.ID] = i.Port, i.Done
			return true, s
		case "drop":
			s.ports[i.ID], s.done[i.ID] = 0, false
			return true, s
		case "stats":
			o := out.(linOut)
			a, b := s.counts()
			return a == o.S && b == o.L, s
		case "own": // counts answered to an announce: after the announcer was included
			o := out.(linOut)
			a, b := s.counts()
			return a == o.S && b == o.L && s.ports[i.ID] == i.Port, s
		case "list":
			return out.(linOut).List == s.list(), s
		}
		return false, s
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

func describe(ops []porcupine.Operation) []string {
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var out []string
	for _, o := range ops {
		out = append(out, fmt.Sprintf("client %d [%d..%d] %+v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output))
	}
	return out
}

// clock orders calls and returns without creating lock contention.
var t0 = time.Now()

func clock() int64 { return int64(time.Since(t0)) }

// barrier releases n goroutines at nearly the same time.
type barrier struct{ n atomic.Int32 }

func (b *barrier) wait(n int32) {
	b.n.Add(1)
	for i := 0; b.n.Load() < n; i++ {
		if i > 1000 {
			time.Sleep(time.Microsecond)
		}
	}
}

func linID(i int) (id PeerID) {
	copy(id[:], "-LN0001-............")
	id[19] = byte(i)
	return
}

func listString(ls []listed) (string, error) {
	var s []string
	seen := map[string]bool{}
	for _, l := range ls {
		if seen[l.ID] {
			return "", fmt.Errorf("peer %x listed twice", l.ID)
		}
		seen[l.ID] = true
		s = append(s, fmt.Sprintf("%d:%d", l.ID[19], l.Port))
	}
	sort.Strings(s)
	return strings.Join(s, " "), nil
}

// workers runs f(0..n-1) at once and waits.
func (c *Ctx) workers(n int, what string, f func(i int)) {
	var wg sync.WaitGroup
	var b barrier
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.wait(int32(n))
			f(i)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	c.WaitOrStuck(done, what)
}

func (c *Ctx) checkLin(ops []porcupine.Operation, key, what string) {
	res, _ := porcupine.CheckOperationsVerbose(linModel, ops, 30*time.Second)
	switch res {
	case porcupine.Illegal:
		c.Violate(describe(ops), "%s: no one-at-a-time order explains the answers", what)
	case porcupine.Unknown:
		c.Count("linearizability_unknown", 1)
	default:
		c.Count("linearizable_histories", 1)
	}
	// distinct interleavings: order of calls and returns with answers
	c.Eval(key)
}

func interleaving(ops []porcupine.Operation) string {
	type e struct {
		t int64
		s string
	}
	var es []e
	for i, o := range ops {
		es = append(es, e{o.Call, fmt.Sprintf("c%d", i)}, e{o.Return, fmt.Sprintf("r%d%v", i, o.Output)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t < es[j].t })
	var b strings.Builder
	for _, x := range es {
		b.WriteString(x.s)
	}
	return b.String()
}

func monS02(c *Ctx) {
	linDB(c, "S02", 1500*c.Scale)
	conserveDB(c, 40*c.Scale)
	linNet(c, 150*c.Scale)
}

// linDB checks many short concurrent histories on fresh torrents.
func linDB(c *Ctx, stream string, n int) {
	db := newDB(c)
	for hi := 0; hi < n && !c.TooMany(); hi++ {
		r := c.Rand(fmt.Sprintf("%s/lin/%d", stream, hi))
		var h Hash
		binary.BigEndian.PutUint64(h[:], uint64(hi)+1)
		copy(h[8:], "linearizable")
		clients := 2 + r.Intn(3)
		ids := 1 + r.Intn(3)
		per := 2 + r.Intn(4)
		var port atomic.Uint32
		plan := make([][]linIn, clients)
		for k := range plan {
			for j := 0; j < per; j++ {
				in := linIn{ID: r.Intn(ids), Done: r.Intn(2) == 0}
				switch x := r.Intn(10); {
				case x < 5 || (j == 0 && x < 7):
					in.Op = "save"
				case x < 7:
					in.Op = "drop"
				case x < 9:
					in.Op = "stats"
				default:
					in.Op = "list"
				}
				plan[k] = append(plan[k], in)
			}
		}
		// half of the histories start from a torrent left empty
		pre := r.Intn(2) == 0
		if pre {
			db.Save(netip.AddrFrom4([4]byte{10, 0, 0, 0}), 9, true, h, linID(0))
			db.Drop(h, linID(0))
		}
		sweeper := r.Intn(2) == 0 // sweeps that expire nothing must be invisible
		hist := make([][]porcupine.Operation, clients)
		c.workers(clients+1, "concurrent operations", func(k int) {
			if k == clients {
				if sweeper && hi%8 == 0 {
					db.Trim()
				}
				return
			}
			for _, in := range plan[k] {
				var out linOut
				if in.Op == "save" {
					in.Port = uint16(port.Add(1))
				}
				call := clock()
				switch in.Op {
				case "save":
					db.Save(netip.AddrFrom4([4]byte{10, byte(in.ID), byte(in.Port >> 8), byte(in.Port)}), in.Port, in.Done, h, linID(in.ID))
				case "drop":
					db.Drop(h, linID(in.ID))
				case "stats":
					out.S, out.L = counts(db, h)
				case "list":
					ls, err := peerList(db, h, 100, false)
					if err == nil {
						for _, l := range ls {
							a := l.IP.As4()
							if a[1] != l.ID[19] || uint16(a[2])<<8|uint16(a[3]) != l.Port {
								err = fmt.Errorf("listed %v mixes two announces", l)
							}
						}
						out.List, _ = listString(ls)
					}
					if err != nil {
						c.Violate(nil, "list: %v", err)
					}
				}
				hist[k] = append(hist[k], porcupine.Operation{ClientId: k, Input: in, Output: out, Call: call, Return: clock()})
			}
		})
		var ops []porcupine.Operation
		for _, x := range hist {
			ops = append(ops, x...)
		}
		// what is left at the end belongs to the history as well
		t := clock()
		s, l := counts(db, h)
		ops = append(ops, porcupine.Operation{ClientId: clients, Input: linIn{Op: "stats"}, Output: linOut{S: s, L: l}, Call: t, Return: clock()})
		t = clock()
		ls, err := peerList(db, h, 100, false)
		if err == nil {
			var str string
			str, err = listString(ls)
			ops = append(ops, porcupine.Operation{ClientId: clients, Input: linIn{Op: "list"}, Output: linOut{List: str}, Call: t, Return: clock()})
		}
		if err != nil {
			c.Violate(nil, "final list: %v", err)
		}
		c.Count("operations", len(ops))
		c.checkLin(ops, interleaving(ops), "database")
		if hi < 1 {
			c.Sample(describe(ops))
		}
	}
}

// conserveDB lets many clients own distinct peers of shared torrents.
func conserveDB(c *Ctx, rounds int) {
	db := newDB(c)
	for round := 0; round < rounds && !c.TooMany(); round++ {
		seedr := c.Rand(fmt.Sprint("S02/conserve/", round))
		hashes := similarHashes(seedr, 1+seedr.Intn(3))
		for i := range hashes {
			hashes[i][10] = byte(round)
			hashes[i][11] = byte(round >> 8)
			hashes[i][12] = byte(i)
		}
		const n = 8
		models := make([]model, n)
		seeds := make([]int64, n)
		for i := range seeds {
			seeds[i] = seedr.Int63()
			models[i] = model{}
		}
		c.workers(n, "concurrent announces", func(k int) {
			r := rand.New(rand.NewSource(seeds[k]))
			for j := 0; j < 60; j++ {
				h := hashes[r.Intn(len(hashes))]
				var id PeerID
				id[0], id[1] = byte(k), byte(r.Intn(4))
				switch x := r.Intn(20); {
				case x < 11:
					p := mpeer{Complete: r.Intn(2) == 0, IP: randIP(r), Port: uint16(1 + r.Intn(65535))}
					db.Save(p.IP, p.Port, p.Complete, h, id)
					models[k].save(h, id, p)
				case x < 17:
					db.Drop(h, id)
					models[k].drop(h, id)
				case x < 19:
					counts(db, h)
				default:
					if k == 0 && j%30 == 0 {
						db.Trim()
					}
				}
				c.Count("conservation_operations", 1)
			}
		})
		total := model{}
		for _, m := range models {
			for h, t := range m {
				for id, p := range t {
					total.save(h, id, p)
				}
			}
		}
		for _, h := range hashes {
			if d := checkTorrent(db, total, h); d != "" {
				c.Violate(map[string]any{"round": round, "want": sortedModel(total[h])}, "after concurrent announces of own peers: %s", d)
			}
		}
		c.Eval(fmt.Sprint("conserve", round, sortedModel(total[hashes[0]])))
	}
}

// linNet checks the answers of the real transports under concurrency.
func linNet(c *Ctx, n int) {
	config.Config.UDP.Threads = 4
	config.Config.HTTP.Threads = 4
	s := startServers(c, newDB(c), true, true)
	const clients = 4
	var uc [clients]*uclient
	for i := range uc {
		u, err := newUClient("127.0.0.1", s.udpPort)
		must(c, err, "client")
		must(c, u.connect(), "connect")
		uc[i] = u
	}
	for hi := 0; hi < n && !c.TooMany(); hi++ {
		r := c.Rand(fmt.Sprint("S02/net/", hi))
		var h Hash
		binary.BigEndian.PutUint64(h[12:], uint64(hi)+1)
		copy(h[:], "network")
		hist := make([][]porcupine.Operation, clients)
		seeds := make([]int64, clients)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		c.workers(clients, "concurrent requests", func(k int) {
			r := rand.New(rand.NewSource(seeds[k]))
			for j := 0; j < 4; j++ {
				add := func(in linIn, out linOut, call int64) {
					hist[k] = append(hist[k], porcupine.Operation{ClientId: k, Input: in, Output: out, Call: call, Return: clock()})
				}
				port := uint16(1000 + k*100 + j)
				done := r.Intn(2) == 0
				useUDP := r.Intn(3) > 0
				stop := j > 0 && r.Intn(4) == 0
				scrape := r.Intn(4) == 0
				call := clock()
				switch {
				case scrape && useUDP:
					a, err := uc[k].scrape([]Hash{h})
					if err != nil {
						c.Violate(nil, "scrape: %v", err)
						return
					}
					add(linIn{Op: "stats"}, linOut{S: int64(a.Scrape[0][0]), L: int64(a.Scrape[0][2])}, call)
				case scrape:
					f, err := hclient{"127.0.0.1", s.httpPort}.scrape([]Hash{h})
					if err != nil {
						c.Violate(nil, "scrape: %v", err)
						return
					}
					add(linIn{Op: "stats"}, linOut{S: f[h][0], L: f[h][1]}, call)
				case useUDP:
					a := annc{Hash: h, ID: linID(k), Left: 5, Port: port, NumWant: 50}
					if done {
						a.Left = 0
					}
					if stop {
						a.Event = 3
					}
					ans, err := uc[k].announce(a)
					if err != nil {
						c.Violate(nil, "announce: %v", err)
						return
					}
					if stop {
						add(linIn{Op: "drop", ID: k}, linOut{}, call)
					} else {
						add(linIn{Op: "save", ID: k, Done: done, Port: port}, linOut{}, call)
						ret := hist[k][len(hist[k])-1].Return
						add(linIn{Op: "own", ID: k, Port: port}, linOut{S: int64(ans.Seeders), L: int64(ans.Leechers)}, call)
						hist[k][len(hist[k])-1].Return = ret
					}
				default:
					a := hannc{Hash: h, ID: linID(k), Left: "5", Port: fmt.Sprint(port)}
					if done {
						a.Left = "0"
					}
					if stop {
						a.Event = "stopped"
					}
					ans, err := hclient{"127.0.0.1", s.httpPort}.announce(a)
					if err == nil && ans.Failure != "" {
						err = fmt.Errorf("failure %q", ans.Failure)
					}
					if err != nil {
						c.Violate(nil, "announce: %v", err)
						return
					}
					if stop {
						add(linIn{Op: "drop", ID: k}, linOut{}, call)
					} else {
						add(linIn{Op: "save", ID: k, Done: done, Port: port}, linOut{}, call)
						ret := hist[k][len(hist[k])-1].Return
						str, err := listString(ans.Peers)
						if err != nil {
							c.Violate(nil, "list: %v", err)
						}
						add(linIn{Op: "own", ID: k, Port: port}, linOut{S: ans.Complete, L: ans.Incompl}, call)
						hist[k][len(hist[k])-1].Return = ret
						add(linIn{Op: "list"}, linOut{List: str}, call)
						hist[k][len(hist[k])-1].Return = ret
					}
				}
			}
		})
		var ops []porcupine.Operation
		for _, x := range hist {
			ops = append(ops, x...)
		}
		t := clock()
		sc, l := counts(s.db, h)
		ops = append(ops, porcupine.Operation{ClientId: clients, Input: linIn{Op: "stats"}, Output: linOut{S: sc, L: l}, Call: t, Return: clock()})
		// one client id per operation: an announce counts as several at once
		for i := range ops {
			ops[i].ClientId = i
		}
		c.Count("network_operations", len(ops))
		c.checkLin(ops, "net"+interleaving(ops), "network")
	}
	s.stop()
}
