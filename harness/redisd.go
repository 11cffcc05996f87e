package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/solarisdb/solaris/zsim/sim"
)

// ---------------------------------------------------------------- a small Redis server behind a simulated network

type rdVal struct {
	val string
	exp time.Duration // monotonic time, 0: none
}

// redisd executes the commands one by one, like Redis does
type redisd struct {
	db    map[string]rdVal
	mod   map[string]int64 // how often the key was changed
	nmod  int64
	order []string // the keys in the order of their first change
	conns []*rdConn
	down  bool
	safe  bool // a request whose connection breaks was not executed
	cmds  int
	page  int // keys per answer of SCAN
}

func newRedisd() *redisd {
	return &redisd{db: map[string]rdVal{}, mod: map[string]int64{}, page: 10}
}

// rdConn is a connection, seen from both ends
type rdConn struct {
	d      *redisd
	node   *sim.Node
	in     []byte // arrived at the client
	eof    bool   // the connection is broken, as the client sees it
	closed bool   // by the client
	reader *sim.Task
	rdl    time.Duration
	rdlSet bool

	toSrv, toCl time.Duration // when the last bytes sent arrive
	buf         []byte
	gone        bool // the server has dropped the connection
	watch       map[string]int64
	multi       bool
	queue       [][]string
}

type netTimeout struct{}

func (netTimeout) Error() string   { return "i/o timeout" }
func (netTimeout) Timeout() bool   { return true }
func (netTimeout) Temporary() bool { return true }

var errRefused = errors.New("connection refused")

// dial is the Dialer of the clients
func (d *redisd) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	rdDelay()
	if d.down || sim.Fault("net.dial") != 0 {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errRefused}
	}
	c := &rdConn{d: d, node: sim.CurNode(), watch: map[string]int64{}}
	d.conns = append(d.conns, c)
	return c, nil
}

func rdDelay() {
	if v := sim.Fault("net.delay"); v != 0 {
		sim.Sleep(time.Duration(v*v*v) * time.Millisecond)
	}
}

// latency of one direction
func netLatency() time.Duration {
	d := time.Duration(50+sim.S.Rng().Intn(400)) * time.Microsecond
	if v := sim.Fault("net.delay"); v != 0 {
		d += time.Duration(v*v*v) * time.Millisecond
	}
	return d
}

func (c *rdConn) wake() {
	if t := c.reader; t != nil {
		c.reader = nil
		sim.Ready(t)
	}
}

// Read implements net.Conn
func (c *rdConn) Read(p []byte) (int, error) {
	for {
		switch {
		case c.closed:
			return 0, net.ErrClosed
		case len(c.in) > 0:
			n := len(p)
			if sim.Fault("net.short") != 0 && n > 1 {
				n = 1 + sim.S.Rng().Intn(min(n, 16)-1)
			}
			n = copy(p[:n], c.in)
			c.in = c.in[n:]
			return n, nil
		case c.eof:
			return 0, io.EOF
		case c.rdlSet && sim.Mono() >= c.rdl:
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: netTimeout{}}
		}
		var tm *sim.Timer
		if c.rdlSet {
			tm = sim.AddTimer(c.rdl-sim.Mono(), c.node, c.wake)
		}
		c.reader = sim.Cur()
		sim.Block("network read", c)
		c.reader = nil
		tm.Stop()
	}
}

// Write implements net.Conn: the bytes arrive at the server later, if at all
func (c *rdConn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.eof {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}
	}
	b := append([]byte(nil), p...)
	lat := netLatency()
	if sim.Fault("net.stall") != 0 {
		lat += time.Duration(1+sim.S.Rng().Intn(8000)) * time.Millisecond
	}
	at := max(sim.Mono()+lat, c.toSrv+1)
	c.toSrv = at
	how := sim.Fault("net.reset")
	if how != 0 && c.d.safe {
		how = 1
	}
	sim.AddTimer(at-sim.Mono(), nil, func() {
		if c.gone || c.d.down {
			c.drop()
			return
		}
		if how%2 == 1 {
			// the request is lost with the connection
			c.drop()
			return
		}
		out := c.d.feed(c, b)
		if how != 0 {
			// the answer is lost with the connection
			c.drop()
			return
		}
		if len(out) > 0 {
			c.send(out)
		}
	})
	return len(p), nil
}

// send delivers an answer to the client
func (c *rdConn) send(b []byte) {
	at := max(sim.Mono()+netLatency(), c.toCl+1)
	c.toCl = at
	sim.AddTimer(at-sim.Mono(), nil, func() {
		if !c.eof {
			c.in = append(c.in, b...)
			c.wake()
		}
	})
}

// drop breaks the connection
func (c *rdConn) drop() {
	if !c.gone {
		c.gone = true
		c.d.conns = without(c.d.conns, c)
	}
	c.watch, c.multi, c.queue = map[string]int64{}, false, nil
	at := max(sim.Mono()+netLatency(), c.toCl+1)
	c.toCl = at
	sim.AddTimer(at-sim.Mono(), nil, func() {
		c.eof = true
		c.wake()
	})
}

// Close implements net.Conn
func (c *rdConn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.wake()
	sim.AddTimer(max(netLatency(), c.toSrv+1-sim.Mono()), nil, func() {
		if !c.gone {
			c.drop()
		}
	})
	return nil
}

type rdAddr struct{}

func (rdAddr) Network() string { return "tcp" }
func (rdAddr) String() string  { return "redis:6379" }

func (c *rdConn) LocalAddr() net.Addr  { return rdAddr{} }
func (c *rdConn) RemoteAddr() net.Addr { return rdAddr{} }

func (c *rdConn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}

func (c *rdConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return net.ErrClosed
	}
	c.rdlSet = !t.IsZero()
	if c.rdlSet {
		c.rdl = sim.Mono() + t.Sub(sim.Now())
	}
	c.wake()
	return nil
}

func (c *rdConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return net.ErrClosed
	}
	return nil
}

// outage makes the server unreachable, what it stores stays
func (d *redisd) outage() {
	d.down = true
	for _, c := range append([]*rdConn(nil), d.conns...) {
		c.drop()
	}
}

// feed gives the server bytes of the connection and returns its answer
func (d *redisd) feed(c *rdConn, b []byte) []byte {
	c.buf = append(c.buf, b...)
	var out bytes.Buffer
	for {
		cmd, n := parseRESP(c.buf)
		if n == 0 {
			return out.Bytes()
		}
		c.buf = c.buf[n:]
		d.command(c, cmd, &out)
	}
}

// parseRESP returns the first command in b and its length, 0 if it is not complete
func parseRESP(b []byte) ([]string, int) {
	line := func(from int) (string, int) {
		i := bytes.Index(b[from:], []byte("\r\n"))
		if i < 0 {
			return "", 0
		}
		return string(b[from : from+i]), from + i + 2
	}
	l, p := line(0)
	if p == 0 {
		return nil, 0
	}
	if l == "" || l[0] != '*' {
		return strings.Fields(l), p
	}
	n, _ := strconv.Atoi(l[1:])
	var res []string
	for i := 0; i < n; i++ {
		l, q := line(p)
		if q == 0 || l == "" || l[0] != '$' {
			return nil, 0
		}
		k, _ := strconv.Atoi(l[1:])
		if len(b) < q+k+2 {
			return nil, 0
		}
		res = append(res, string(b[q:q+k]))
		p = q + k + 2
	}
	return res, p
}

func (d *redisd) command(c *rdConn, cmd []string, out *bytes.Buffer) {
	if len(cmd) == 0 {
		return
	}
	d.cmds++
	name := strings.ToLower(cmd[0])
	sim.Count("redis:" + name)
	sim.Notef("redis: %.160q", cmd)
	switch name {
	case "multi":
		c.multi, c.queue = true, nil
		out.WriteString("+OK\r\n")
		return
	case "discard":
		c.multi, c.queue, c.watch = false, nil, map[string]int64{}
		out.WriteString("+OK\r\n")
		return
	case "exec":
		if !c.multi {
			out.WriteString("-ERR EXEC without MULTI\r\n")
			return
		}
		q, ok := c.queue, true
		for k, m := range c.watch {
			d.get(k)
			ok = ok && d.mod[k] == m
		}
		c.multi, c.queue, c.watch = false, nil, map[string]int64{}
		if !ok {
			out.WriteString("*-1\r\n")
			return
		}
		fmt.Fprintf(out, "*%d\r\n", len(q))
		for _, x := range q {
			d.exec(x, out)
		}
		return
	case "watch":
		for _, k := range cmd[1:] {
			d.get(k)
			if _, ok := c.watch[k]; !ok {
				c.watch[k] = d.mod[k]
			}
		}
		out.WriteString("+OK\r\n")
		return
	case "unwatch":
		c.watch = map[string]int64{}
		out.WriteString("+OK\r\n")
		return
	}
	if c.multi {
		c.queue = append(c.queue, cmd)
		out.WriteString("+QUEUED\r\n")
		return
	}
	d.exec(cmd, out)
}

func (d *redisd) touch(k string) {
	d.nmod++
	if d.mod[k] == 0 {
		d.order = append(d.order, k)
	}
	d.mod[k] = d.nmod
}

func (d *redisd) get(k string) (rdVal, bool) {
	v, ok := d.db[k]
	if ok && v.exp != 0 && v.exp <= sim.Mono() {
		delete(d.db, k)
		d.touch(k)
		return rdVal{}, false
	}
	return v, ok
}

func (d *redisd) set(k, v string, ttl time.Duration) {
	x := rdVal{val: v}
	if ttl > 0 {
		x.exp = sim.Mono() + ttl
	}
	d.db[k] = x
	d.touch(k)
}

func (d *redisd) exec(cmd []string, out *bytes.Buffer) {
	bulk := func(k string) {
		if v, ok := d.get(k); ok {
			fmt.Fprintf(out, "$%d\r\n%s\r\n", len(v.val), v.val)
		} else {
			out.WriteString("$-1\r\n")
		}
	}
	num := func(n int) { fmt.Fprintf(out, ":%d\r\n", n) }
	name, a := strings.ToLower(cmd[0]), cmd[1:]
	need := map[string]int{"get": 1, "set": 2, "setnx": 2, "mget": 1, "mset": 2, "del": 1, "unlink": 1, "exists": 1, "scan": 1, "keys": 1, "pexpire": 2, "expire": 2, "pttl": 1, "getdel": 1, "getset": 2}
	if len(a) < need[name] {
		fmt.Fprintf(out, "-ERR wrong number of arguments for '%s' command\r\n", name)
		return
	}
	switch name {
	case "ping":
		out.WriteString("+PONG\r\n")
	case "select", "auth", "client", "readonly":
		out.WriteString("+OK\r\n")
	case "get":
		bulk(a[0])
	case "getdel":
		bulk(a[0])
		if _, ok := d.get(a[0]); ok {
			delete(d.db, a[0])
			d.touch(a[0])
		}
	case "getset":
		bulk(a[0])
		d.set(a[0], a[1], 0)
	case "set":
		var ttl time.Duration
		old, has := d.get(a[0])
		nx, xx, keep := false, false, false
		for i := 2; i < len(a); i++ {
			switch o := strings.ToLower(a[i]); o {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "keepttl":
				keep = true
			case "px", "ex":
				i++
				if i >= len(a) {
					out.WriteString("-ERR syntax error\r\n")
					return
				}
				n, err := strconv.ParseInt(a[i], 10, 64)
				if err != nil || n <= 0 {
					out.WriteString("-ERR invalid expire time in 'set' command\r\n")
					return
				}
				ttl = time.Duration(n) * time.Millisecond
				if o == "ex" {
					ttl = time.Duration(n) * time.Second
				}
			default:
				out.WriteString("-ERR syntax error\r\n")
				return
			}
		}
		if nx && has || xx && !has {
			out.WriteString("$-1\r\n")
			return
		}
		if keep && has && old.exp != 0 {
			ttl = old.exp - sim.Mono()
		}
		d.set(a[0], a[1], ttl)
		out.WriteString("+OK\r\n")
	case "setnx":
		if _, ok := d.get(a[0]); ok {
			num(0)
			return
		}
		d.set(a[0], a[1], 0)
		num(1)
	case "mget":
		fmt.Fprintf(out, "*%d\r\n", len(a))
		for _, k := range a {
			bulk(k)
		}
	case "mset":
		if len(a)%2 != 0 {
			out.WriteString("-ERR wrong number of arguments for 'mset' command\r\n")
			return
		}
		for i := 0; i+1 < len(a); i += 2 {
			d.set(a[i], a[i+1], 0)
		}
		out.WriteString("+OK\r\n")
	case "del", "unlink", "exists":
		n := 0
		for _, k := range a {
			if _, ok := d.get(k); ok {
				n++
				if name != "exists" {
					delete(d.db, k)
					d.touch(k)
				}
			}
		}
		num(n)
	case "pexpire", "expire":
		n, err := strconv.ParseInt(a[1], 10, 64)
		v, ok := d.get(a[0])
		if err != nil || !ok {
			num(0)
			return
		}
		ttl := time.Duration(n) * time.Millisecond
		if name == "expire" {
			ttl = time.Duration(n) * time.Second
		}
		if ttl <= 0 {
			delete(d.db, a[0])
			d.touch(a[0])
		} else {
			d.set(a[0], v.val, ttl)
		}
		num(1)
	case "pttl":
		v, ok := d.get(a[0])
		switch {
		case !ok:
			num(-2)
		case v.exp == 0:
			num(-1)
		default:
			num(int((v.exp - sim.Mono()) / time.Millisecond))
		}
	case "keys":
		var ks []string
		for _, k := range d.order {
			if _, ok := d.get(k); ok && rdMatch(a[0], k) {
				ks = append(ks, k)
			}
		}
		fmt.Fprintf(out, "*%d\r\n", len(ks))
		for _, k := range ks {
			fmt.Fprintf(out, "$%d\r\n%s\r\n", len(k), k)
		}
	case "scan":
		// the cursor is the number of the last key looked at, in the order of the first use of the keys
		cur, err := strconv.Atoi(a[0])
		if err != nil {
			out.WriteString("-ERR invalid cursor\r\n")
			return
		}
		pat := "*"
		for i := 1; i+1 < len(a); i += 2 {
			if strings.ToLower(a[i]) == "match" {
				pat = a[i+1]
			}
		}
		var ks []string
		i := cur
		for n := 0; i < len(d.order) && n < d.page; i++ {
			n++
			if _, ok := d.get(d.order[i]); ok && rdMatch(pat, d.order[i]) {
				ks = append(ks, d.order[i])
			}
		}
		// a key may be returned again when the hash table is resized
		if cur > 0 && sim.Fault("redis.again") != 0 {
			if _, ok := d.get(d.order[0]); ok && rdMatch(pat, d.order[0]) {
				ks = append(ks, d.order[0])
			}
		}
		if i >= len(d.order) {
			i = 0
		}
		s := strconv.Itoa(i)
		fmt.Fprintf(out, "*2\r\n$%d\r\n%s\r\n*%d\r\n", len(s), s, len(ks))
		for _, k := range ks {
			fmt.Fprintf(out, "$%d\r\n%s\r\n", len(k), k)
		}
	default:
		fmt.Fprintf(out, "-ERR unknown command '%s'\r\n", cmd[0])
	}
}

// rdMatch: the patterns of Redis, in which * matches slashes too
func rdMatch(pat, k string) bool {
	ok, _ := path.Match(strings.ReplaceAll(pat, "/", "\x01"), strings.ReplaceAll(k, "/", "\x01"))
	return ok
}
