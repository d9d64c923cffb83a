package mon

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/http"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/tracker/udp"
)

// ---- in-process trackers

type srv struct {
	c        *Ctx
	db       storage.Database
	udp      *udp.UDPTracker
	http     *http.HTTPTracker
	udpPort  int
	httpPort int
	serveErr chan error
}

// startServers runs the real trackers on free ports.
func startServers(c *Ctx, db storage.Database, withUDP, withHTTP bool) *srv {
	for try := 0; ; try++ {
		s := &srv{c: c, db: db, serveErr: make(chan error, 2)}
		ok := true
		if withUDP {
			s.udpPort = freePort(c)
			config.Config.UDP.Port = s.udpPort
			s.udp = &udp.UDPTracker{}
			s.udp.Init(db)
			go func(u *udp.UDPTracker) { s.serveErr <- u.Serve() }(s.udp)
			ok = waitUDP(s.udpPort, s.serveErr)
		}
		if ok && withHTTP {
			s.httpPort = freePort(c)
			config.Config.HTTP.Port = s.httpPort
			s.http = &http.HTTPTracker{}
			s.http.Init(db)
			go func(h *http.HTTPTracker) { s.serveErr <- h.Serve() }(s.http)
			ok = waitTCP(s.httpPort, s.serveErr)
		}
		if ok {
			return s
		}
		if try == 4 {
			c.Inconclusive("trackers do not come up")
		}
	}
}

// stop asks the trackers to shut down and does not wait for goroutines.
func (s *srv) stop() {
	done := make(chan struct{})
	go func() {
		if s.udp != nil {
			s.udp.Shutdown()
		}
		if s.http != nil {
			s.http.Shutdown()
		}
		close(done)
	}()
	s.c.WaitOrStuck(done, "shutdown")
}

var heartbeatReq = []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0}

func waitUDP(port int, fail chan error) bool {
	conn, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err != nil {
		return false
	}
	defer conn.Close()
	buf := make([]byte, 2048)
	for i := 0; i < 400; i++ {
		select {
		case <-fail:
			return false
		default:
		}
		conn.Write(heartbeatReq)
		conn.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		if n, err := conn.Read(buf); err == nil && n == 1 && buf[0] == 0xFF {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func waitTCP(port int, fail chan error) bool {
	for i := 0; i < 400; i++ {
		select {
		case <-fail:
			return false
		default:
		}
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
		if err == nil {
			conn.Close()
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

// ---- UDP wire format, written from the protocol's description

func pkConnect(txid uint32) []byte {
	b := binary.BigEndian.AppendUint64(nil, 0x41727101980)
	b = binary.BigEndian.AppendUint32(b, 0)
	return binary.BigEndian.AppendUint32(b, txid)
}

type annc struct {
	Hash    Hash
	ID      PeerID
	Left    int64
	Event   uint32
	IP      uint32
	Key     uint32
	NumWant int32
	Port    uint16
	Down    int64
	Up      int64
}

func pkAnnounce(cid int64, txid uint32, a annc) []byte {
	b := binary.BigEndian.AppendUint64(nil, uint64(cid))
	b = binary.BigEndian.AppendUint32(b, 1)
	b = binary.BigEndian.AppendUint32(b, txid)
	b = append(b, a.Hash[:]...)
	b = append(b, a.ID[:]...)
	b = binary.BigEndian.AppendUint64(b, uint64(a.Down))
	b = binary.BigEndian.AppendUint64(b, uint64(a.Left))
	b = binary.BigEndian.AppendUint64(b, uint64(a.Up))
	b = binary.BigEndian.AppendUint32(b, a.Event)
	b = binary.BigEndian.AppendUint32(b, a.IP)
	b = binary.BigEndian.AppendUint32(b, a.Key)
	b = binary.BigEndian.AppendUint32(b, uint32(a.NumWant))
	return binary.BigEndian.AppendUint16(b, a.Port)
}

func pkScrape(cid int64, txid uint32, hashes []Hash) []byte {
	b := binary.BigEndian.AppendUint64(nil, uint64(cid))
	b = binary.BigEndian.AppendUint32(b, 2)
	b = binary.BigEndian.AppendUint32(b, txid)
	for _, h := range hashes {
		b = append(b, h[:]...)
	}
	return b
}

// uclient is a UDP client with one source address.
type uclient struct {
	conn *net.UDPConn
	cid  int64
	txid uint32
	addr netip.AddrPort
}

// newUClient binds ip ("" for any) and talks to the server at host:port.
// sources are the given client addresses and those the loopback of this
// namespace has besides.
func sources(given ...string) []string {
	if l := os.Getenv("VMON_ADDRS"); l != "" {
		given = append(given[:len(given):len(given)], strings.Split(l, ",")...)
	}
	return given
}

// some picks n of the addresses.
func some(r *rand.Rand, n int, l []string) []string {
	l = append([]string(nil), l...)
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l[:min(n, len(l))]
}

// recorded is the address a client is known by.
func recorded(ip string) netip.Addr { return netip.MustParseAddr(ip).Unmap().WithZone("") }

// serverFor is the address under which a client reaches the tracker.
func serverFor(ip string) netip.Addr {
	if ip == "" {
		return netip.MustParseAddr("127.0.0.1")
	}
	switch a := netip.MustParseAddr(ip); {
	case !a.IsLoopback():
		return a
	case a.Is4():
		return netip.MustParseAddr("127.0.0.1")
	default:
		return a
	}
}

func newUClient(ip string, port int) (*uclient, error) {
	var local *net.UDPAddr
	if ip != "" {
		local = net.UDPAddrFromAddrPort(netip.AddrPortFrom(netip.MustParseAddr(ip), 0))
	}
	conn, err := net.DialUDP("udp", local, net.UDPAddrFromAddrPort(netip.AddrPortFrom(serverFor(ip), uint16(port))))
	if err != nil {
		return nil, err
	}
	conn.SetReadBuffer(4 << 20)
	ap := conn.LocalAddr().(*net.UDPAddr).AddrPort()
	ap = netip.AddrPortFrom(ap.Addr().Unmap().WithZone(""), ap.Port())
	return &uclient{conn: conn, addr: ap}, nil
}

func (u *uclient) close() { u.conn.Close() }

var errNoAnswer = errors.New("no answer")

// rpc sends a datagram and returns the next datagram received. Waiting is
// bounded by a watchdog only; loopback does not lose datagrams here.
func (u *uclient) rpc(b []byte) ([]byte, error) {
	if _, err := u.conn.Write(b); err != nil {
		return nil, err
	}
	return u.recv(60 * time.Second)
}

func (u *uclient) recv(d time.Duration) ([]byte, error) {
	buf := make([]byte, 65536)
	u.conn.SetReadDeadline(time.Now().Add(d))
	n, err := u.conn.Read(buf)
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return nil, errNoAnswer
		}
		return nil, err
	}
	return buf[:n], nil
}

// fence sends b followed by a heartbeat and returns everything answered before
// the heartbeat's answer. With one serving thread that is everything b caused.
func (u *uclient) fence(b []byte) ([][]byte, error) {
	if _, err := u.conn.Write(b); err != nil {
		return nil, err
	}
	if _, err := u.conn.Write(heartbeatReq); err != nil {
		return nil, err
	}
	var out [][]byte
	for {
		r, err := u.recv(60 * time.Second)
		if err != nil {
			return out, err
		}
		if len(r) == 1 && r[0] == 0xFF {
			return out, nil
		}
		out = append(out, r)
		if len(out) > 50 {
			return out, errors.New("endless answers")
		}
	}
}

func (u *uclient) next() uint32 {
	u.txid = u.txid*1664525 + 1013904223
	return u.txid
}

func (u *uclient) connect() error {
	tx := u.next()
	r, err := u.rpc(pkConnect(tx))
	if err != nil {
		return err
	}
	if len(r) != 16 || binary.BigEndian.Uint32(r) != 0 || binary.BigEndian.Uint32(r[4:]) != tx {
		return fmt.Errorf("connect answered %x", r)
	}
	u.cid = int64(binary.BigEndian.Uint64(r[8:]))
	return nil
}

// uansw is a decoded UDP answer.
type uansw struct {
	Action   uint32
	Tx       uint32
	Interval int32
	Leechers int32
	Seeders  int32
	Peers    []listed
	Err      string
	Raw      []byte
	Scrape   [][3]int32
}

func decodeUAnswer(r []byte, v6 bool) (a uansw, err error) {
	a.Raw = r
	if len(r) < 8 {
		return a, fmt.Errorf("answer of %d bytes", len(r))
	}
	a.Action, a.Tx = binary.BigEndian.Uint32(r), binary.BigEndian.Uint32(r[4:])
	switch a.Action {
	case 1:
		if len(r) < 20 {
			return a, fmt.Errorf("announce answer of %d bytes", len(r))
		}
		a.Interval = int32(binary.BigEndian.Uint32(r[8:]))
		a.Leechers = int32(binary.BigEndian.Uint32(r[12:]))
		a.Seeders = int32(binary.BigEndian.Uint32(r[16:]))
		if v6 {
			a.Peers, err = parseCompact6(r[20:])
		} else {
			a.Peers, err = parseCompact4(r[20:])
		}
	case 2:
		if (len(r)-8)%12 != 0 {
			return a, fmt.Errorf("scrape answer of %d bytes", len(r))
		}
		for b := r[8:]; len(b) > 0; b = b[12:] {
			a.Scrape = append(a.Scrape, [3]int32{int32(binary.BigEndian.Uint32(b)), int32(binary.BigEndian.Uint32(b[4:])), int32(binary.BigEndian.Uint32(b[8:]))})
		}
	case 3:
		a.Err = string(r[8:])
	}
	return a, err
}

func (u *uclient) announce(a annc) (uansw, error) {
	tx := u.next()
	r, err := u.rpc(pkAnnounce(u.cid, tx, a))
	if err != nil {
		return uansw{}, err
	}
	d, err := decodeUAnswer(r, u.addr.Addr().Is6())
	if err == nil && d.Tx != tx {
		err = fmt.Errorf("transaction id %x, sent %x", d.Tx, tx)
	}
	if err == nil && d.Action != 1 {
		err = fmt.Errorf("announce answered with action %d %q", d.Action, d.Err)
	}
	return d, err
}

func (u *uclient) scrape(h []Hash) (uansw, error) {
	tx := u.next()
	r, err := u.rpc(pkScrape(u.cid, tx, h))
	if err != nil {
		return uansw{}, err
	}
	d, err := decodeUAnswer(r, false)
	if err == nil && d.Tx != tx {
		err = fmt.Errorf("transaction id %x, sent %x", d.Tx, tx)
	}
	if err == nil && (d.Action != 2 || len(d.Scrape) != len(h)) {
		err = fmt.Errorf("scrape of %d hashes answered with action %d, %d bytes: %.60x", len(h), d.Action, len(r), r)
	}
	return d, err
}

// ---- HTTP

// hclient makes requests from one source address.
type hclient struct {
	ip   string
	port int
}

func (h hclient) host() string {
	return serverFor(h.ip).String()
}

func (h hclient) dial() (net.Conn, error) {
	d := net.Dialer{Timeout: 30 * time.Second}
	if h.ip != "" {
		d.LocalAddr = net.TCPAddrFromAddrPort(netip.AddrPortFrom(netip.MustParseAddr(h.ip), 0))
	}
	return d.Dial("tcp", net.JoinHostPort(h.host(), fmt.Sprint(h.port)))
}

// raw sends the bytes in one write, and reads everything until the end.
func (h hclient) raw(req []byte) ([]byte, error) {
	conn, err := h.dial()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := conn.Write(req); err != nil {
		return nil, err
	}
	b, err := io.ReadAll(conn)
	if err != nil && len(b) > 0 && errors.Is(err, errReset) {
		err = nil // closed with unread input after answering
	}
	return b, err
}

// splitHTTP separates status and body of an answer.
func splitHTTP(b []byte) (status string, body []byte, err error) {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return "", nil, fmt.Errorf("answer without header end: %.60q", b)
	}
	line, _, _ := strings.Cut(string(b[:i]), "\r\n")
	f := strings.Fields(line)
	if len(f) < 2 || !strings.HasPrefix(f[0], "HTTP/1.") {
		return "", nil, fmt.Errorf("bad status line %.60q", line)
	}
	return f[1], b[i+4:], nil
}

func esc(b []byte) string {
	var s strings.Builder
	for _, x := range b {
		fmt.Fprintf(&s, "%%%02x", x)
	}
	return s.String()
}

type hannc struct {
	Hash    Hash
	ID      PeerID
	Port    string
	Left    string
	Event   string
	Compact bool
	NoID    bool
	NumWant string
}

func (a hannc) query() string {
	q := "info_hash=" + esc(a.Hash[:]) + "&peer_id=" + esc(a.ID[:]) + "&port=" + a.Port
	// what else clients send, at any place
	x := fnv.New64a()
	fmt.Fprint(x, a)
	k := x.Sum64()
	bit := func() bool { k = k>>1 | k<<63; return k&1 == 0 }
	if bit() {
		q = "key=4f1e&" + q
	}
	if bit() {
		q += "&uploaded=0&downloaded=0"
	}
	if bit() && bit() {
		q += "&ip=9.8.7.6&ipv4=9.8.7.6&ipv6=2001:db8::9"
	}
	if a.Left != "" {
		q += "&left=" + strings.TrimSpace(a.Left) // a blank: an empty value
	}
	if a.Event != "" {
		q += "&event=" + a.Event
	}
	if a.Compact {
		q += "&compact=1"
	} else if bit() {
		q += "&compact=0"
	}
	if a.NoID {
		q += "&no_peer_id=1"
	} else if bit() {
		q += "&no_peer_id=0"
	}
	if bit() {
		q += "&corrupt=0&supportcrypto=1"
	}
	if a.NumWant != "" {
		q += "&numwant=" + a.NumWant
	}
	return q
}

// hansw is a decoded HTTP announce answer.
type hansw struct {
	Failure  string
	Interval int64
	Complete int64
	Incompl  int64
	Peers    []listed
	Compact4 []listed
	Compact6 []listed
	HasC6    bool
	IsList   bool
	Strings  bool // an entry of the list is a string
	Body     []byte
}

func decodeHAnnounce(b []byte) (a hansw, err error) {
	st, body, err := splitHTTP(b)
	if err != nil {
		return a, err
	}
	if st != "200" {
		return a, fmt.Errorf("status %s", st)
	}
	a.Body = body
	if len(body) == 0 {
		return a, nil
	}
	v, err := bdecodeAll(body)
	if err != nil {
		return a, fmt.Errorf("body is not one bencoded value: %v: %.200q", err, body)
	}
	d, ok := v.(*bdict)
	if !ok {
		return a, fmt.Errorf("body is no dictionary: %.200q", body)
	}
	seen := map[string]bool{}
	for _, k := range d.Keys {
		if seen[k] {
			return a, fmt.Errorf("key %q twice", k)
		}
		seen[k] = true
	}
	if f, ok := d.Get("failure reason"); ok {
		a.Failure, _ = f.(string)
		if a.Failure == "" {
			return a, fmt.Errorf("empty failure reason")
		}
		return a, nil
	}
	num := func(k string) int64 {
		v, _ := d.Get(k)
		n, ok := v.(int64)
		if !ok && err == nil {
			err = fmt.Errorf("no integer %q in %.200q", k, body)
		}
		return n
	}
	a.Interval, a.Complete, a.Incompl = num("interval"), num("complete"), num("incomplete")
	if err != nil {
		return a, err
	}
	p, ok := d.Get("peers")
	if !ok {
		return a, fmt.Errorf("no peers in %.200q", body)
	}
	switch p := p.(type) {
	case string:
		if a.Compact4, err = parseCompact4([]byte(p)); err != nil {
			return a, err
		}
		if p6, ok := d.Get("peers6"); ok {
			s, ok := p6.(string)
			if !ok {
				return a, fmt.Errorf("peers6 is no string")
			}
			a.HasC6 = true
			if a.Compact6, err = parseCompact6([]byte(s)); err != nil {
				return a, err
			}
		}
	case []any:
		a.IsList = true
		for _, e := range p {
			if _, ok := e.(string); ok {
				a.Strings = true
			}
			l, err := peerFromValue(e)
			if err != nil {
				return a, err
			}
			a.Peers = append(a.Peers, l)
		}
	default:
		return a, fmt.Errorf("peers is a %T", p)
	}
	return a, nil
}

func (h hclient) announce(a hannc) (hansw, error) {
	b, err := h.raw([]byte("GET /announce?" + a.query() + " HTTP/1.1\r\nHost: t\r\n\r\n"))
	if err != nil {
		return hansw{}, err
	}
	return decodeHAnnounce(b)
}

// decodeHScrape returns the files of a scrape answer in order.
func decodeHScrape(b []byte) (files map[Hash][2]int64, failure string, err error) {
	st, body, err := splitHTTP(b)
	if err != nil {
		return nil, "", err
	}
	if st != "200" {
		return nil, "", fmt.Errorf("status %s", st)
	}
	v, err := bdecodeAll(body)
	if err != nil {
		return nil, "", fmt.Errorf("body is not one bencoded value: %v: %.200q", err, body)
	}
	d, ok := v.(*bdict)
	if !ok {
		return nil, "", fmt.Errorf("body is no dictionary: %.200q", body)
	}
	if f, ok := d.Get("failure reason"); ok {
		s, _ := f.(string)
		if s == "" {
			return nil, "", fmt.Errorf("empty failure reason")
		}
		return nil, s, nil
	}
	f, ok := d.Get("files")
	if !ok || len(d.Keys) != 1 {
		return nil, "", fmt.Errorf("keys %q in a scrape answer", d.Keys)
	}
	fd, ok := f.(*bdict)
	if !ok {
		return nil, "", fmt.Errorf("files is no dictionary")
	}
	files = map[Hash][2]int64{}
	for i, k := range fd.Keys {
		if len(k) != 20 {
			return nil, "", fmt.Errorf("file key of %d bytes", len(k))
		}
		e, ok := fd.Vals[i].(*bdict)
		if !ok {
			return nil, "", fmt.Errorf("file entry is no dictionary")
		}
		c, _ := e.Get("complete")
		ic, _ := e.Get("incomplete")
		cn, ok1 := c.(int64)
		in, ok2 := ic.(int64)
		if !ok1 || !ok2 {
			return nil, "", fmt.Errorf("file entry without counts")
		}
		var h Hash
		copy(h[:], k)
		if old, dup := files[h]; dup && old != [2]int64{cn, in} {
			return nil, "", fmt.Errorf("different counts for one hash")
		}
		files[h] = [2]int64{cn, in}
	}
	return files, "", nil
}

func (h hclient) scrape(hs []Hash) (map[Hash][2]int64, error) {
	b, err := h.rawScrape(hs)
	if err != nil {
		return nil, err
	}
	f, fail, err := decodeHScrape(b)
	if err == nil && fail != "" {
		err = fmt.Errorf("scrape failed: %s", fail)
	}
	return f, err
}

func (h hclient) rawScrape(hs []Hash) ([]byte, error) {
	var q []string
	for _, x := range hs {
		q = append(q, "info_hash="+esc(x[:]))
	}
	if len(hs) > 0 && len(hs) < 30 && hs[0][19]&1 == 0 { // as clients do
		q = append([]string{"passkey=0123456789abcdefghij", "trackerid=" + esc(hs[0][:])}, q...)
	}
	return h.raw([]byte("GET /scrape?" + strings.Join(q, "&") + " HTTP/1.1\r\nHost: t\r\n\r\n"))
}

func newUDPTracker(db storage.Database) *udp.UDPTracker {
	t := &udp.UDPTracker{}
	t.Init(db)
	return t
}

func newHTTPTracker(db storage.Database) *http.HTTPTracker {
	t := &http.HTTPTracker{}
	t.Init(db)
	return t
}

func smallReceiveBuffer(network, address string, rc syscall.RawConn) error {
	return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
}
