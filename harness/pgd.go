package main

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"time"
	"unicode/utf8"

	"github.com/lib/pq"
	"github.com/solarisdb/solaris/golibs/cast"
	"github.com/solarisdb/solaris/pkg/db"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/postgres"
	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zthird/sql"
)

// pgServer is the database: it outlives the processes of the server
type pgServer struct {
	data  *pgData
	owner *pgConn // of the lock of the writers
	stmts map[string]*pgParsed
	err   func(f string, a ...any) // the model cannot go on
	tick  uint64
	upErr int // the statements which were disturbed
	down  bool
	seed  uint64
}

type pgParsed struct {
	sts  []*pgStmt
	maxP int
	e    *pgErr
}

func newPG(c *Ctx) *pgServer {
	return &pgServer{data: &pgData{tables: map[string]*pgTable{}}, stmts: map[string]*pgParsed{}, err: c.Unsupported, seed: sim.S.Rng().U64()}
}

// clone returns the database after the connections of the process were lost
func (s *pgServer) clone() *pgServer {
	n := *s
	n.data = s.data.clone()
	n.owner = nil
	return &n
}

type pgDriver struct{ s *pgServer }

func (d *pgDriver) Open(string) (driver.Conn, error) {
	netDelay("sql")
	if d.s.down || sim.Fault("sql.read") != 0 {
		d.s.upErr++
		return nil, errPGNet
	}
	return &pgConn{s: d.s}, nil
}

type pgNetErr struct{}

func (pgNetErr) Error() string {
	return "read tcp 10.0.0.2:41022->10.0.0.3:5432: read: connection reset by peer"
}
func (pgNetErr) Timeout() bool   { return false }
func (pgNetErr) Temporary() bool { return false }

var errPGNet error = pgNetErr{}

type pgConn struct {
	s      *pgServer
	bad    bool
	closed bool
	tx     bool
	iso    driver.IsolationLevel
	ro     bool
	snap   *pgData // what the transaction sees, nil: what is committed
	failed bool    // the transaction is aborted
	fresh  bool    // not used since it was taken from the pool
}

var (
	_ driver.QueryerContext  = (*pgConn)(nil)
	_ driver.ExecerContext   = (*pgConn)(nil)
	_ driver.ConnBeginTx     = (*pgConn)(nil)
	_ driver.SessionResetter = (*pgConn)(nil)
	_ driver.Validator       = (*pgConn)(nil)
	_ driver.Pinger          = (*pgConn)(nil)
)

func (c *pgConn) IsValid() bool { return !c.bad }

func (c *pgConn) ResetSession(ctx context.Context) error {
	if c.bad {
		return driver.ErrBadConn
	}
	c.fresh = true
	return nil
}

func (c *pgConn) Ping(ctx context.Context) error {
	_, err := c.exec(ctx, ";", nil)
	return err
}

func (c *pgConn) Close() error {
	c.closed, c.bad = true, true
	c.end()
	return nil
}

// drop ends the session on the side of the database
func (c *pgConn) drop() {
	c.s.upErr++
	c.bad = true
	c.end()
}

func (c *pgConn) end() {
	if c.s.owner == c {
		c.s.owner = nil
	}
	c.tx, c.snap, c.failed = false, nil, false
}

type pgStmtH struct {
	c *pgConn
	q string
}

func (c *pgConn) Prepare(q string) (driver.Stmt, error) { return &pgStmtH{c, q}, nil }
func (h *pgStmtH) Close() error                         { return nil }
func (h *pgStmtH) NumInput() int                        { return -1 }
func (h *pgStmtH) Exec(args []driver.Value) (driver.Result, error) {
	return h.ExecContext(context.Background(), pgNamed(args))
}
func (h *pgStmtH) Query(args []driver.Value) (driver.Rows, error) {
	return h.QueryContext(context.Background(), pgNamed(args))
}
func (h *pgStmtH) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	return h.c.ExecContext(ctx, h.q, args)
}
func (h *pgStmtH) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return h.c.QueryContext(ctx, h.q, args)
}

func pgNamed(args []driver.Value) []driver.NamedValue {
	var r []driver.NamedValue
	for i, a := range args {
		r = append(r, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return r
}

func (c *pgConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *pgConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	netDelay("sql")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if v := sim.Fault("sql.read"); v != 0 {
		c.drop()
		return nil, errPGNet
	}
	c.tx, c.iso, c.ro, c.snap, c.failed = true, o.Isolation, o.ReadOnly, nil, false
	return pgTx{c}, nil
}

type pgTx struct{ c *pgConn }

func (t pgTx) Commit() error {
	c := t.c
	if c.bad {
		return driver.ErrBadConn
	}
	netDelay("sql")
	v := sim.Fault("sql.write")
	if v != 0 && v%2 == 1 {
		c.drop()
		return errPGNet
	}
	var err error
	sim.Atomic(func() {
		if c.failed {
			err = errors.New("pq: Could not complete operation in a failed transaction")
		} else if c.s.owner == c && c.snap != nil {
			c.s.data = c.snap
			c.s.data.ver++
		}
		c.end()
	})
	netDelay("sql")
	if v != 0 {
		c.drop()
		return errPGNet
	}
	return err
}

func (t pgTx) Rollback() error {
	c := t.c
	if c.bad {
		return driver.ErrBadConn
	}
	c.end()
	netDelay("sql")
	return nil
}

func pgPQ(e pgErr) error {
	return &pq.Error{Severity: "ERROR", Code: pq.ErrorCode(e.code), Message: e.msg}
}

var errPGCancel = pgErr{"57014", "canceling statement due to user request"}

func (s *pgServer) parse(q string) (p *pgParsed) {
	if p = s.stmts[q]; p != nil {
		return p
	}
	p = &pgParsed{}
	s.stmts[q] = p
	defer func() {
		switch e := recover().(type) {
		case nil:
		case pgErr:
			p.e = &e
		case pgUnsupported:
			s.err("the model of the database does not know %s: %s", e.msg, q)
			p.e = &pgErr{"0A000", e.msg}
		default:
			panic(e)
		}
	}()
	p.sts, p.maxP = pgParse(q)
	return p
}

func (c *pgConn) exec(ctx context.Context, q string, args []driver.NamedValue) (res pgResult, err error) {
	s := c.s
	if c.closed || c.bad {
		return res, driver.ErrBadConn
	}
	// the connection of the pool may have been closed by the other side: nothing was sent, the pool takes another one
	if c.fresh && !c.tx {
		c.fresh = false
		if sim.Fault("sql.stale") != 0 {
			c.drop()
			return res, driver.ErrBadConn
		}
	}
	sim.YS()
	netDelay("sql")
	if err := ctx.Err(); err != nil {
		if sim.S.Rng().Pct(50) {
			return res, err
		}
		c.failed = c.tx
		return res, pgPQ(errPGCancel)
	}
	p := s.parse(q)
	write, lock := false, false
	for _, st := range p.sts {
		switch st.kind {
		case "select":
			lock = lock || st.lock != ""
		case "nop":
		default:
			write = true
		}
	}
	kind := "sql.read"
	if write {
		kind = "sql.write"
	}
	v := 0
	if s.down {
		c.drop()
		return res, errPGNet
	}
	if v = sim.Fault(kind); v != 0 && v%2 == 1 {
		c.drop()
		return res, errPGNet
	}
	sim.Count(kind)
	if c.tx && c.failed {
		return res, pgPQ(pgErr{"25P02", "current transaction is aborted, commands ignored until end of transaction block"})
	}
	// the writers wait for each other
	for (write || lock) && s.owner != nil && s.owner != c {
		sim.Sleep(time.Millisecond)
		if ctx.Err() != nil {
			c.failed = c.tx
			return res, pgPQ(errPGCancel)
		}
		if c.bad {
			return res, driver.ErrBadConn
		}
	}
	e := p.e
	sim.Atomic(func() {
		if e != nil {
			return
		}
		defer func() {
			switch x := recover().(type) {
			case nil:
			case pgErr:
				e = &x
			case pgUnsupported:
				s.err("the model of the database does not know %s: %s", x.msg, q)
				e = &pgErr{"0A000", x.msg}
			default:
				panic(x)
			}
		}()
		if len(args) == 0 && p.maxP > 0 {
			pgFail("42P02", "there is no parameter $1")
		}
		if len(args) > 0 && len(p.sts) > 1 {
			pgFail("42601", "cannot insert multiple commands into a prepared statement")
		}
		if len(args) != p.maxP {
			pgFail("08P01", "got %d parameters but the statement requires %d", len(args), p.maxP)
		}
		if len(args) > 65535 {
			pgFail("08P01", "too many parameters")
		}
		params := make([]any, len(args))
		for _, a := range args {
			x := a.Value
			switch t := x.(type) {
			case []byte:
				if t == nil {
					x = nil
				} else {
					x = append([]byte{}, t...)
				}
			}
			var text string
			switch t := x.(type) {
			case string:
				text = t
			case []byte:
				text = string(t)
			}
			if !utf8.ValidString(text) {
				pgFail("22021", "invalid byte sequence for encoding \"UTF8\"")
			}
			for i := 0; i < len(text); i++ {
				if text[i] == 0 {
					pgFail("22021", "invalid byte sequence for encoding \"UTF8\": 0x00")
				}
			}
			params[a.Ordinal-1] = x
		}
		if !utf8.ValidString(q) {
			pgFail("22021", "invalid byte sequence for encoding \"UTF8\"")
		}
		d := s.data
		fixed := c.tx && c.iso >= driver.IsolationLevel(sql.LevelRepeatableRead)
		if c.tx && c.snap != nil {
			d = c.snap
		} else if fixed {
			c.snap = d.clone()
			d = c.snap
		}
		if write || lock {
			if c.tx && c.ro && write {
				pgFail("25006", "cannot execute the statement in a read-only transaction")
			}
			if c.tx {
				if fixed && s.owner != c && d.ver != s.data.ver {
					pgFail("40001", "could not serialize access due to concurrent update")
				}
				if s.owner != c {
					s.owner = c
					if !fixed {
						c.snap = s.data.clone()
					}
				}
				d = c.snap
			}
		}
		work := d
		if write {
			work = d.clone() // the statement is done as a whole or not at all
		}
		ex := &pgExec{d: work, params: params, now: sim.Wall(), shuf: func(n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = i
			}
			// the order of the rows is up to the database
			s.tick++
			h := s.seed + s.tick*0x9E3779B97F4A7C15
			if h>>60 < 8 {
				return p
			}
			for i := n - 1; i > 0; i-- {
				h ^= h << 13
				h ^= h >> 7
				h ^= h << 17
				j := int(h % uint64(i+1))
				p[i], p[j] = p[j], p[i]
			}
			return p
		}}
		for _, st := range p.sts {
			r := ex.run(st)
			if r.cols != nil || res.cols == nil {
				res = r
			}
		}
		if write {
			if c.tx {
				c.snap = work
			} else {
				work.ver = s.data.ver + 1
				s.data = work
			}
		}
	})
	if e != nil {
		c.failed = c.tx
		err = pgPQ(*e)
	}
	netDelay("sql")
	if v != 0 {
		c.drop()
		return res, errPGNet // executed but the answer is lost
	}
	if err == nil && ctx.Err() != nil && sim.S.Rng().Pct(50) {
		c.failed = c.tx
		err = pgPQ(errPGCancel)
	}
	return res, err
}

func (c *pgConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r, err := c.exec(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(r.n), nil
}

func (c *pgConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.exec(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return &pgRows{c: c, res: r}, nil
}

type pgRows struct {
	c   *pgConn
	res pgResult
	i   int
}

func (r *pgRows) Columns() []string { return r.res.cols }
func (r *pgRows) Close() error      { return nil }

func (r *pgRows) Next(dest []driver.Value) error {
	sim.YS()
	if r.c.bad {
		return errPGNet
	}
	if sim.Fault("sql.rows") != 0 {
		r.c.drop()
		return errPGNet // the connection breaks while the rows are received
	}
	if r.i >= len(r.res.rows) {
		return io.EOF
	}
	for i, v := range r.res.rows[r.i] {
		if j, ok := v.(pgJSON); ok {
			v = pgText(j)
		}
		dest[i] = v
	}
	r.i++
	return nil
}

// connectPG returns the metadata store of the server process: the real code over the model of the database
func connectPG(ctx context.Context, s *pgServer, conns int) (cache.LogsChunksMetaStorage, *postgres.Db, error) {
	sql.Register("postgres", &pgDriver{s})
	s.owner = nil // the sessions of the previous process are gone
	for i := 0; ; i++ {
		d, err := postgres.GetDb(ctx, &db.DBConn{Driver: "postgres", Host: "db", Port: "5432", Username: "u", Password: "p", DBName: "solaris", SSLMode: "disable",
			MaxConnections: cast.Ptr(conns), MaxConnIdleTimeSec: cast.Ptr(30)})
		if err == nil {
			return postgres.NewStorage(d), d, nil
		}
		if i >= 20 {
			return nil, nil, fmt.Errorf("no connection with the database: %w", err)
		}
		sim.Sleep(time.Second) // the process is started again
	}
}
