package mon

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/crimist/trakx/bencoding"
	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
)

func init() {
	register("E01", monE01)
	register("E02", monE02)
	register("E02re", monE02re)
}

// ---- E01

type named string
type namedMap map[string]int32

func randBytes(r *rand.Rand, most int) []byte {
	n := 0
	switch r.Intn(6) {
	case 0:
	case 1:
		n = []int{9, 10, 11, 99, 100, 101, 31, 32, 33}[r.Intn(9)]
	default:
		n = r.Intn(most + 1)
	}
	b := make([]byte, n)
	r.Read(b)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = "0123456789:dlie-"[r.Intn(16)]
		}
	case 1:
		for i := range b {
			b[i] = "abc é\x00\xff"[r.Intn(8)]
		}
	}
	return b
}

func randInt64(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return []int64{0, -1, 1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, -10, 10, 9, 99, 100}[r.Intn(13)]
	case 1:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	}
	return int64(r.Intn(2000) - 1000)
}

// randAny returns a value, what it decodes to and whether it is supported.
func randAny(r *rand.Rand, depth int) (v any, want any, ok bool) {
	n := randInt64(r)
	top := 18
	if depth <= 0 {
		top = 15
	}
	switch r.Intn(top) {
	case 0:
		s := string(randBytes(r, 40))
		return s, s, true
	case 1:
		b := randBytes(r, 40)
		return b, string(b), true
	case 2:
		var ls []string
		w := []any{}
		for i := r.Intn(5); i > 0; i-- {
			s := string(randBytes(r, 12))
			ls, w = append(ls, s), append(w, s)
		}
		return ls, w, true
	case 3:
		return int(n), n, true
	case 4:
		return int8(n), int64(int8(n)), true
	case 5:
		return int16(n), int64(int16(n)), true
	case 6:
		return int32(n), int64(int32(n)), true
	case 7:
		return n, n, true
	case 8:
		return uint(n), unsigned(uint64(n)), true
	case 9:
		return uint8(n), int64(uint8(n)), true
	case 10:
		return uint16(n), int64(uint16(n)), true
	case 11:
		return uint32(n), int64(uint32(n)), true
	case 12:
		return uint64(n), unsigned(uint64(n)), true
	case 13:
		switch r.Intn(9) {
		case 0:
			return nil, nil, false
		case 1:
			return 1.5, nil, false
		case 2:
			return true, nil, false
		case 3:
			return []int{1, 2}, nil, false
		case 4:
			return struct{ A int }{1}, nil, false
		case 5:
			return named("x"), nil, false
		case 6:
			return namedMap{"a": 1}, nil, false
		case 7:
			return []any{"a"}, nil, false
		}
		return &n, nil, false
	case 14:
		m := map[string]int32{}
		w := map[string]any{}
		for i := r.Intn(4); i > 0; i-- {
			k, x := string(randBytes(r, 20)), int32(randInt64(r))
			m[k], w[k] = x, int64(x)
		}
		return m, w, true
	case 15:
		m := map[string]map[string]int32{}
		w := map[string]any{}
		for i := r.Intn(4); i > 0; i-- {
			k := string(randBytes(r, 20))
			in, iw := map[string]int32{}, map[string]any{}
			for j := r.Intn(3); j > 0; j-- {
				x := int32(randInt64(r))
				kk := string(randBytes(r, 9))
				in[kk], iw[kk] = x, int64(x)
			}
			m[k], w[k] = in, iw
		}
		return m, w, true
	default:
		m := map[string]interface{}{}
		w := map[string]any{}
		ok = true
		for i := r.Intn(4); i > 0; i-- {
			k := string(randBytes(r, 20))
			x, xw, xok := randAny(r, depth-1)
			if _, dup := m[k]; dup {
				continue
			}
			m[k], w[k] = x, xw
			ok = ok && xok
		}
		return m, w, ok
	}
}

func unsigned(n uint64) any {
	if n > math.MaxInt64 {
		return n
	}
	return int64(n)
}

// sameBen compares a decoded value; maps come in any order.
func sameBen(got, want any) bool {
	switch w := want.(type) {
	case *bdict:
		g, ok := got.(*bdict)
		if !ok || len(g.Keys) != len(w.Keys) {
			return false
		}
		for i := range w.Keys {
			if g.Keys[i] != w.Keys[i] || !sameBen(g.Vals[i], w.Vals[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		g, ok := got.(*bdict)
		if !ok || len(g.Keys) != len(w) {
			return false
		}
		seen := map[string]bool{}
		for i, k := range g.Keys {
			x, ok := w[k]
			if !ok || seen[k] || !sameBen(g.Vals[i], x) {
				return false
			}
			seen[k] = true
		}
		return true
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameBen(g[i], w[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(got, want)
}

func showBen(v any) string {
	switch x := v.(type) {
	case *bdict:
		s := "{"
		for i := range x.Keys {
			s += fmt.Sprintf("%q: %s, ", x.Keys[i], showBen(x.Vals[i]))
		}
		return s + "}"
	case map[string]any:
		s := "map{"
		for k := range x {
			s += fmt.Sprintf("%q: %s, ", k, showBen(x[k]))
		}
		return s + "}"
	case []any:
		s := "["
		for i := range x {
			s += showBen(x[i]) + ", "
		}
		return s + "]"
	}
	return fmt.Sprintf("%T %.60q", v, fmt.Sprint(v))
}

func monE01(c *Ctx) {
	r := c.Rand("E01")
	d := bencoding.NewDictionary()
	type kept struct {
		got  string
		copy string
	}
	var old []kept
	for n := 0; n < 3000*c.Scale && !c.TooMany(); n++ {
		if n%7 == 0 {
			d = bencoding.NewDictionary()
		}
		var prog []string
		root := &bdict{}
		stack := []*bdict{root}
		var inputs, copies [][]byte
		keep := func(b []byte) []byte {
			inputs = append(inputs, b)
			copies = append(copies, bytes.Clone(b))
			return b
		}
		var script func(n int)
		failed := 0
		script = func(n int) {
			for ; n > 0; n-- {
				cur := stack[len(stack)-1]
				kb := randBytes(r, 30)
				key := string(kb)
				add := func(v any) {
					cur.Keys = append(cur.Keys, key)
					cur.Vals = append(cur.Vals, v)
				}
				op := r.Intn(10)
				prog = append(prog, fmt.Sprintf("%d %.20q", op, key))
				switch op {
				case 0:
					v := string(randBytes(r, 300))
					d.String(key, v)
					add(v)
				case 1:
					v := keep(randBytes(r, 300))
					d.StringBytes(key, v)
					add(string(v))
				case 2:
					v := randInt64(r)
					d.Int64(key, v)
					add(v)
				case 3:
					in := bencoding.NewDictionary()
					w := &bdict{}
					for i := r.Intn(3); i > 0; i-- {
						k, x := string(randBytes(r, 9)), randInt64(r)
						in.Int64(k, x)
						w.Keys, w.Vals = append(w.Keys, k), append(w.Vals, x)
					}
					d.Dictionary(key, in.Get())
					add(w)
				case 4, 5:
					if len(stack) > 12 {
						continue
					}
					if op == 4 {
						d.StartDictionary(key)
					} else {
						d.StartDictionaryBytes(keep(kb))
					}
					w := &bdict{}
					add(w)
					stack = append(stack, w)
					script(r.Intn(4))
					d.EndDictionary()
					stack = stack[:len(stack)-1]
				case 6:
					var ls [][]byte
					w := []any{}
					for i := r.Intn(6); i > 0; i-- {
						b := keep(randBytes(r, 30))
						ls, w = append(ls, b), append(w, string(b))
					}
					d.BytesliceSlice(key, ls)
					add(w)
				case 7, 8:
					v, w, ok := randAny(r, 3)
					if b, isb := v.([]byte); isb {
						keep(b)
					}
					err := d.Any(key, v)
					if ok != (err == nil) {
						c.Violate(fmt.Sprintf("%#v", v), "Any(%T) returned %v", v, err)
					}
					if err != nil {
						failed++
						c.Count("unsupported_values", 1)
						continue // the dictionary must be as before
					}
					add(w)
				case 9:
					if len(stack) == 1 && r.Intn(6) == 0 {
						d.Reset()
						root.Keys, root.Vals = nil, nil
						c.Count("resets", 1)
					}
				}
				c.Count("writes", 1)
			}
		}
		script(r.Intn(12))
		var out string
		if r.Intn(2) == 0 {
			out = d.Get()
			old = append(old, kept{out, strings.Clone(out)})
		} else {
			out = string(d.GetBytes())
		}
		for i := range inputs {
			if !bytes.Equal(inputs[i], copies[i]) {
				c.Violate(prog, "writing changed the caller's bytes")
			}
		}
		v, err := bdecodeAll([]byte(out))
		if err != nil {
			c.Violate(map[string]any{"ops": prog, "out": fmt.Sprintf("%q", out)}, "the encoding does not decode: %v", err)
		} else if !sameBen(v, root) {
			c.Violate(map[string]any{"ops": prog, "got": showBen(v), "want": showBen(root)}, "the encoding decodes to other contents")
		}
		if n == 3 {
			c.Sample(map[string]any{"encoded": fmt.Sprintf("%.200q", out)})
		}
		d.Reset()
		if r.Intn(5) == 0 {
			if s := d.Get(); s != "de" {
				c.Violate(nil, "a reset dictionary encodes as %.80q", s)
			}
			d.Reset()
		}
		c.Eval(out)
		c.Max("max_encoded_bytes", len(out))
		if len(old) > 50 {
			old = old[1:]
		}
		for _, o := range old {
			if o.got != o.copy {
				c.Violate(nil, "an encoding handed out earlier has changed: %.100q was %.100q", o.got, o.copy)
				break
			}
		}
	}
	// dictionaries in several goroutines have nothing in common
	c.workers(6, "parallel dictionaries", func(k int) {
		r := rand.New(rand.NewSource(int64(k) + c.Seed<<8))
		for i := 0; i < 300*c.Scale; i++ {
			d := bencoding.NewDictionary()
			w := &bdict{}
			for j := r.Intn(8); j > 0; j-- {
				k := string(randBytes(r, 10))
				v, want, ok := randAny(r, 2)
				if (d.Any(k, v) == nil) != ok {
					c.Violate(nil, "Any of %T", v)
				}
				if ok {
					w.Keys, w.Vals = append(w.Keys, k), append(w.Vals, want)
				}
			}
			v, err := bdecodeAll(d.GetBytes())
			if err != nil || !sameBen(v, w) {
				c.Violate(nil, "concurrent encoding: %v", err)
				return
			}
			c.Count("parallel_dictionaries", 1)
		}
	})
}

// ---- E02

// holders knows who holds which object.
type holders struct {
	mu   sync.Mutex
	held map[unsafe.Pointer]int
	seen map[unsafe.Pointer]struct{}
	refs []any // keeps every object alive so that addresses are never reused
}

func newHolders() *holders {
	return &holders{held: map[unsafe.Pointer]int{}, seen: map[unsafe.Pointer]struct{}{}}
}

func (h *holders) take(c *Ctx, what string, p unsafe.Pointer, ref any, who int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if o, dup := h.held[p]; dup {
		c.Violate(nil, "%s: %d was given the object that %d still holds", what, who, o)
	}
	h.held[p] = who
	if _, ok := h.seen[p]; !ok {
		h.seen[p] = struct{}{}
		h.refs = append(h.refs, ref)
	}
}

func (h *holders) give(p unsafe.Pointer) {
	h.mu.Lock()
	delete(h.held, p)
	h.mu.Unlock()
}

func ptrOf(b []byte) unsafe.Pointer { return unsafe.Pointer(unsafe.SliceData(b)) }

// fillPeer and checkPeer put a mark into a whole object and look it up again.
func fillPeer(p *storage.Peer, n int) {
	p.Complete, p.Port, p.LastSeen = n%2 == 0, uint16(n), int64(n)*7919
	p.IP = mustAddr(fmt.Sprintf("10.%d.%d.%d", n>>16&255, n>>8&255, n&255))
}

func checkPeer(p *storage.Peer, n int) bool {
	var q storage.Peer
	fillPeer(&q, n)
	return *p == q
}

func fill(b []byte, n int) {
	for i := range b {
		b[i] = byte(n + i)
	}
}

func checkFill(b []byte, n int) bool {
	for i := range b {
		if b[i] != byte(n+i) {
			return false
		}
	}
	return true
}

// poolUser takes objects of every pool, marks them, waits and looks again.
func poolUser(c *Ctx, hs map[string]*holders, limit, k, rounds int, r *rand.Rand, stop *atomic.Bool) {
	for i := 0; i < rounds && !stop.Load() && !c.TooMany(); i++ {
		n := k<<12 | i&0xfff
		type obj struct {
			check func() string
			put   func()
		}
		var objs []obj
		for j := 1 + r.Intn(4); j > 0; j-- {
			n := n + j*31
			switch r.Intn(4) {
			case 0, 1:
				pool, unit, name := pools.Peerlists4, 6, "Peerlists4"
				if r.Intn(2) == 0 {
					pool, unit, name = pools.Peerlists6, 18, "Peerlists6"
				}
				b := pool.Get()
				if cap(b) < unit*limit {
					c.Violate(nil, "%s: a buffer has room for %d bytes, the limit %d needs %d", name, cap(b), limit, unit*limit)
				}
				if limit == 0 {
					objs = append(objs, obj{func() string { return "" }, func() { pool.Put(b) }})
					break
				}
				full := b[:cap(b)]
				hs[name].take(c, name, ptrOf(b), full, k)
				fill(full, n)
				shorter := b[:r.Intn(cap(b)+1)]
				objs = append(objs, obj{func() string {
					if !checkFill(full, n) {
						return name
					}
					return ""
				}, func() { hs[name].give(ptrOf(b)); pool.Put(shorter) }})
			case 2:
				d := pools.Dictionaries.Get()
				hs["Dictionaries"].take(c, "Dictionaries", unsafe.Pointer(d), d, k)
				if r.Intn(3) == 0 {
					if s := d.Get(); s != "de" {
						c.Violate(nil, "a dictionary from the pool holds %.100q", s)
					}
					d.Reset()
				}
				key := fmt.Sprint(n)
				d.Int64(key, int64(n))
				if r.Intn(2) == 0 {
					d.String("long", strings.Repeat("x", r.Intn(3000)))
				}
				objs = append(objs, obj{func() string {
					v, err := bdecodeAll([]byte(d.Get()))
					if err != nil {
						return "Dictionaries: " + err.Error()
					}
					if x, _ := v.(*bdict).Get(key); x != int64(n) || len(v.(*bdict).Keys) > 2 {
						return fmt.Sprint("Dictionaries: ", showBen(v))
					}
					return ""
				}, func() { hs["Dictionaries"].give(unsafe.Pointer(d)); pools.Dictionaries.Put(d) }})
			case 3:
				p := pools.Peers.Get()
				hs["Peers"].take(c, "Peers", unsafe.Pointer(p), p, k)
				fillPeer(p, n)
				objs = append(objs, obj{func() string {
					if !checkPeer(p, n) {
						return fmt.Sprint("Peers: ", *p)
					}
					return ""
				}, func() { hs["Peers"].give(unsafe.Pointer(p)); pools.Peers.Put(p) }})
			}
			c.Count("objects_taken", 1)
		}
		switch r.Intn(4) {
		case 0:
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		case 1, 2:
			for j := r.Intn(5); j > 0; j-- {
				runtime.Gosched()
			}
		}
		r.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
		for _, o := range objs {
			if s := o.check(); s != "" {
				c.Violate(nil, "an object was changed by someone else while it was held: %s", s)
			}
			o.put()
		}
	}
}

func newHolderSet() map[string]*holders {
	return map[string]*holders{"Peerlists4": newHolders(), "Peerlists6": newHolders(), "Dictionaries": newHolders(), "Peers": newHolders()}
}

// monE02 also has the whole tracker use the pools.
func monE02(c *Ctx) {
	const limit = 30
	config.Config.Numwant.Limit = limit
	config.Config.Numwant.Default = limit
	config.Config.UDP.Threads = 3
	config.Config.HTTP.Threads = 4
	db := newDB(c)
	s := startServers(c, db, true, true)
	var stop atomic.Bool
	hashes := similarHashes(c.Rand("E02"), 5)
	hs := newHolderSet()
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			poolUser(c, hs, limit, k, 1<<30, rand.New(rand.NewSource(int64(k)+c.Seed<<20)), &stop)
		}(k)
	}
	c.workers(6, "traffic using the pools", func(k int) {
		r := rand.New(rand.NewSource(int64(k)<<8 + c.Seed<<20))
		ip := []string{"127.0.0.1", "127.7.0.2", "::1"}[r.Intn(3)]
		u, err := newUClient(ip, s.udpPort)
		must(c, err, "client")
		defer u.close()
		if err := u.connect(); err != nil {
			c.Violate(nil, "connect: %v", err)
			return
		}
		hc := hclient{ip, s.httpPort}
		for i := 0; i < 500*c.Scale && !c.TooMany(); i++ {
			h := hashes[r.Intn(len(hashes))]
			id := PeerID{byte(k), byte(r.Intn(9)), 9}
			var err error
			switch r.Intn(12) {
			case 0, 1, 2:
				db.Save(randIP(r), uint16(1+r.Intn(60000)), r.Intn(2) == 0, h, id)
			case 3, 4:
				db.Drop(h, id)
			case 5:
				_, err = u.announce(annc{Hash: h, ID: id, Port: 9, NumWant: int32(r.Intn(40)), Event: uint32(r.Intn(4))})
			case 6:
				_, err = hc.announce(hannc{Hash: h, ID: id, Port: "9", NumWant: fmt.Sprint(r.Intn(40)), Compact: r.Intn(2) == 0, Event: []string{"", "stopped"}[r.Intn(2)]})
			case 7:
				_, err = hc.scrape([]Hash{h})
			case 8:
				var a hansw
				a, err = hc.announce(hannc{Hash: h, ID: id, Port: "x"})
				if err == nil && a.Failure == "" {
					err = errors.New("not refused")
				}
			case 9:
				db.PeerList(h, uint(r.Intn(40)), r.Intn(2) == 0)
			case 10:
				p4, p6 := db.PeerListBytes(h, uint(r.Intn(limit+1)))
				if len(p4)%6 != 0 || len(p6)%18 != 0 {
					err = fmt.Errorf("lists of %d and %d bytes", len(p4), len(p6))
				}
				pools.Peerlists4.Put(p4)
				pools.Peerlists6.Put(p6)
			case 11:
				if k == 0 {
					db.Trim()
				}
			}
			if err != nil {
				c.Violate(nil, "%v", err)
			}
			c.Count("tracker_operations", 1)
		}
	})
	stop.Store(true)
	wg.Wait()
	s.stop()
	c.Eval("traffic")
	for k, n := range map[string]int32{"Peerlists4": pools.Peerlists4.Created(), "Peerlists6": pools.Peerlists6.Created(), "Dictionaries": pools.Dictionaries.Created(), "Peers": pools.Peers.Created()} {
		if int(n) < len(hs[k].seen) {
			c.Violate(nil, "%s counts %d objects made, %d different ones were seen", k, n, len(hs[k].seen))
		}
	}
}

// monE02re looks at the pools alone: limits, re-initialisation, counts.
func monE02re(c *Ctx) {
	r := c.Rand("E02re")
	var stop atomic.Bool
	for round := 0; round < 25*c.Scale && !c.TooMany(); round++ {
		limit := []int{0, 1, 2, 7, 75, 200, 3000}[r.Intn(7)]
		initPools(limit)
		hs := newHolderSet()
		c.workers(5, "pool users", func(k int) {
			poolUser(c, hs, limit, k, 120, rand.New(rand.NewSource(int64(round*16+k)+c.Seed<<20)), &stop)
		})
		for k, n := range map[string]int32{"Peerlists4": pools.Peerlists4.Created(), "Peerlists6": pools.Peerlists6.Created(), "Dictionaries": pools.Dictionaries.Created(), "Peers": pools.Peers.Created()} {
			if limit == 0 && strings.HasPrefix(k, "Peerlists") {
				continue
			}
			if int(n) != len(hs[k].seen) {
				c.Violate(nil, "limit %d: %s counts %d objects made, %d different ones were seen", limit, k, n, len(hs[k].seen))
			}
			c.Count("created_counts_compared", 1)
		}
		c.Eval(fmt.Sprint(round, limit))

		// a pool of our own with a constructor and a reset that count
		var made, resets atomic.Int32
		type thing struct {
			n     int
			clean bool
		}
		p := pools.NewPool[*thing](func() any { made.Add(1); return &thing{clean: true} }, func(t *thing) { resets.Add(1); t.n, t.clean = 0, true })
		h := newHolders()
		var puts atomic.Int32
		c.workers(5, "own pool", func(k int) {
			r := rand.New(rand.NewSource(int64(round*16 + k)))
			for i := 0; i < 100; i++ {
				t := p.Get()
				h.take(c, "own pool", unsafe.Pointer(t), t, k)
				if !t.clean || t.n != 0 {
					c.Violate(nil, "an object came back without being reset: %+v", *t)
				}
				t.clean, t.n = false, k*1000+i
				if r.Intn(2) == 0 {
					runtime.Gosched()
				}
				if t.n != k*1000+i {
					c.Violate(nil, "an object changed while held")
				}
				if r.Intn(6) == 0 {
					h.give(unsafe.Pointer(t)) // dropped, never put back
					continue
				}
				h.give(unsafe.Pointer(t))
				puts.Add(1)
				p.Put(t)
			}
		})
		if p.Created() != made.Load() || int(made.Load()) != len(h.seen) {
			c.Violate(nil, "created is %d, %d objects were made, %d were seen", p.Created(), made.Load(), len(h.seen))
		}
		if resets.Load() != puts.Load() {
			c.Violate(nil, "%d objects were put back, %d resets", puts.Load(), resets.Load())
		}
		// a pool without reset hands things over as they are
		q := pools.NewPool[*thing](func() any { return new(thing) }, nil)
		x := q.Get()
		q.Put(x)
		q.Get()
		if n := q.Created(); n != 1 && n != 2 {
			c.Violate(nil, "created is %d after two Gets", n)
		}
	}
}
