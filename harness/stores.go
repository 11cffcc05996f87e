package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/pkg/ql"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/zsim/sim"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// ---- remote object store (a stub with faults)

type remoteStore struct {
	objs map[string][]byte
	down bool
	// corruptLess: what was ever stored completely
	puts, gets int64
}

var errRemote = errors.New("remote store is unavailable")

func newRemote() *remoteStore { return &remoteStore{objs: map[string][]byte{}} }

func (r *remoteStore) clone() *remoteStore {
	n := newRemote()
	for k, v := range r.objs {
		n.objs[k] = v
	}
	return n
}

// remoteClient is the connection of one server incarnation with the store
type remoteClient struct{ r *remoteStore }

var _ sss.Storage = (*remoteClient)(nil)

func netDelay(kind string) {
	if v := sim.Fault(kind + ".delay"); v != 0 {
		sim.Sleep(time.Duration(v*v*v) * time.Millisecond)
	} else {
		sim.Sleep(time.Duration(100+sim.S.Rng().Intn(900)) * time.Microsecond)
	}
}

func (c *remoteClient) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	sim.YS()
	c.r.gets++
	sim.Count("remote:get")
	netDelay("remote")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if c.r.down || sim.Fault("remote.get") != 0 {
		return nil, errRemote
	}
	b, ok := c.r.objs[key]
	if !ok {
		return nil, fmt.Errorf("no such object %s: %w", key, serrors.ErrNotExist)
	}
	return &remoteReader{b: b, cut: sim.Fault("remote.getcut"), n: len(b)}, nil
}

type remoteReader struct {
	b   []byte
	cut int
	n   int
}

func (r *remoteReader) Read(p []byte) (int, error) {
	sim.YS()
	if r.cut != 0 && len(r.b) <= r.n-r.n*(r.cut-1)/8 {
		return 0, io.ErrUnexpectedEOF
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	m := len(p)
	if m > 4096 {
		m = 4096
	}
	n := copy(p[:m], r.b)
	r.b = r.b[n:]
	return n, nil
}
func (r *remoteReader) Close() error { return nil }

func (c *remoteClient) Put(ctx context.Context, key string, rd io.Reader) error {
	sim.YS()
	sim.Count("remote:put")
	netDelay("remote")
	if err := ctx.Err(); err != nil {
		return err
	}
	if c.r.down || sim.Fault("remote.put") != 0 {
		return errRemote
	}
	b, err := io.ReadAll(rd)
	if err != nil {
		return err
	}
	netDelay("remote")
	if c.r.down || sim.Fault("remote.put") != 0 {
		return errRemote
	}
	c.r.puts++
	// an object store makes an object visible as a whole
	c.r.objs[key] = bytes.Clone(b)
	if sim.Fault("remote.putlost") != 0 {
		return errRemote // stored, but the answer is lost
	}
	return nil
}

func (c *remoteClient) List(ctx context.Context, path string) ([]string, error) {
	sim.YS()
	var res []string
	seen := map[string]bool{}
	for _, k := range sortedKeys(c.r.objs) {
		if strings.HasPrefix(k, path) {
			rest := k[len(path):]
			if i := strings.Index(rest, "/"); i >= 0 {
				k = path + rest[:i+1]
			}
			if !seen[k] {
				seen[k] = true
				res = append(res, k)
			}
		}
	}
	return res, nil
}

func (c *remoteClient) Delete(ctx context.Context, key string) error {
	sim.YS()
	netDelay("remote")
	if c.r.down || sim.Fault("remote.delete") != 0 {
		return errRemote
	}
	delete(c.r.objs, key)
	return nil
}

// ---- metadata in a remote SQL database (a stub with faults); it survives crashes of the server

type sqlLog struct {
	l       *solaris.Log
	deleted bool
	chunks  map[string]logfs.ChunkInfo
}

type sqlStore struct {
	logs  map[string]*sqlLog
	down  bool
	seq   int
	upErr int // failures of UpsertChunkInfos
}

func newSQL() *sqlStore { return &sqlStore{logs: map[string]*sqlLog{}} }

func (s *sqlStore) clone() *sqlStore {
	n := newSQL()
	for k, v := range s.logs {
		c := &sqlLog{l: proto.Clone(v.l).(*solaris.Log), deleted: v.deleted, chunks: map[string]logfs.ChunkInfo{}}
		for i, x := range v.chunks {
			c.chunks[i] = x
		}
		n.logs[k] = c
	}
	return n
}

// sqlClient is the connection of one server incarnation
type sqlClient struct {
	cache.LogsChunksMetaStorage // whatever the interface gets in the future
	s                           *sqlStore
}

var errSQL = errors.New("the database connection is broken")

// tx executes f atomically somewhere between the call and the return
func (c *sqlClient) tx(ctx context.Context, write bool, f func() error) error {
	sim.YS()
	netDelay("sql")
	if err := ctx.Err(); err != nil {
		return err
	}
	k := "sql.read"
	if write {
		k = "sql.write"
	}
	v := 0
	if c.s.down {
		return errSQL
	}
	if v = sim.Fault(k); v != 0 && v%2 == 1 {
		return errSQL
	}
	sim.Count(k)
	var err error
	sim.Atomic(func() { err = f() }) // the evaluator of conditions has points of preemption
	netDelay("sql")
	if v != 0 {
		return errSQL // applied but the answer is lost
	}
	return err
}

func newULID() string { return fmt.Sprintf("01HZ%022d", sim.Tick()) }

func (c *sqlClient) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	in := proto.Clone(log).(*solaris.Log)
	var out *solaris.Log
	err := c.tx(ctx, true, func() error {
		in.ID = newULID()
		in.CreatedAt = timestamppb.New(sim.Wall())
		in.UpdatedAt = in.CreatedAt
		c.s.logs[in.ID] = &sqlLog{l: in, chunks: map[string]logfs.ChunkInfo{}}
		out = proto.Clone(in).(*solaris.Log)
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (s *sqlStore) get(id string) (*sqlLog, error) {
	l := s.logs[id]
	if l == nil || l.deleted {
		return nil, fmt.Errorf("log %s: %w", id, serrors.ErrNotExist)
	}
	return l, nil
}

func (c *sqlClient) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	var out *solaris.Log
	err := c.tx(ctx, false, func() error {
		l, err := c.s.get(id)
		if err != nil {
			return err
		}
		out = proto.Clone(l.l).(*solaris.Log)
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (c *sqlClient) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	in := proto.Clone(log).(*solaris.Log)
	var out *solaris.Log
	err := c.tx(ctx, true, func() error {
		l, err := c.s.get(in.ID)
		if err != nil {
			return err
		}
		l.l.Tags = in.Tags
		l.l.UpdatedAt = timestamppb.New(sim.Wall())
		out = proto.Clone(l.l).(*solaris.Log)
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (s *sqlStore) match(cond string, ids []string, deleted bool) ([]*sqlLog, error) {
	var res []*sqlLog
	var f ql.ExprF[*solaris.Log]
	if len(ids) == 0 {
		expr, err := ql.Parse(cond)
		if err != nil {
			return nil, fmt.Errorf("%v: %w", err, serrors.ErrInvalid)
		}
		f, err = ql.BuildExprF(expr, ql.LogsCondValueDialect)
		if err != nil {
			return nil, fmt.Errorf("%v: %w", err, serrors.ErrInvalid)
		}
	}
	for _, id := range sortedKeys(s.logs) {
		l := s.logs[id]
		if l.deleted && !deleted {
			continue
		}
		if f != nil && f(l.l) || f == nil && inList(id, ids...) {
			res = append(res, l)
		}
	}
	return res, nil
}

func (c *sqlClient) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	res := &solaris.QueryLogsResult{}
	err := c.tx(ctx, false, func() error {
		ls, err := c.s.match(qr.Condition, qr.IDs, qr.Deleted)
		if err != nil {
			return err
		}
		lim := int(qr.Limit)
		if lim == 0 {
			lim = 50
		}
		for _, l := range ls {
			if l.l.ID < qr.Page {
				continue
			}
			res.Total++
			if len(res.Logs) == lim {
				if res.NextPageID == "" {
					res.NextPageID = l.l.ID
				}
				continue
			}
			res.Logs = append(res.Logs, proto.Clone(l.l).(*solaris.Log))
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (c *sqlClient) DeleteLogs(ctx context.Context, rq storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	res := &solaris.DeleteLogsResult{}
	if len(rq.IDs) == 0 && rq.Condition == "" {
		return res, nil
	}
	err := c.tx(ctx, true, func() error {
		ls, err := c.s.match(rq.Condition, rq.IDs, !rq.MarkOnly)
		if err != nil {
			return err
		}
		for _, l := range ls {
			res.DeletedIDs = append(res.DeletedIDs, l.l.ID)
			if rq.MarkOnly {
				l.deleted = true
			} else {
				delete(c.s.logs, l.l.ID)
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (c *sqlClient) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkInfo, error) {
	cis, err := c.chunks(ctx, logID, false)
	if err != nil {
		return logfs.ChunkInfo{}, err
	}
	if len(cis) == 0 {
		return logfs.ChunkInfo{}, serrors.ErrNotExist
	}
	return cis[len(cis)-1], nil
}

func (c *sqlClient) chunks(ctx context.Context, logID string, must bool) ([]logfs.ChunkInfo, error) {
	var res []logfs.ChunkInfo
	err := c.tx(ctx, false, func() error {
		l, err := c.s.get(logID)
		if err != nil {
			if !must && c.s.logs[logID] != nil {
				l = c.s.logs[logID]
			} else {
				return err
			}
		}
		for _, k := range sortedKeys(l.chunks) {
			res = append(res, l.chunks[k])
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (c *sqlClient) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInfo, error) {
	return c.chunks(ctx, logID, true)
}

func (c *sqlClient) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) (err error) {
	// the statement is built when the call is made
	cp := append([]logfs.ChunkInfo(nil), cis...)
	defer func() {
		if err == errSQL {
			c.s.upErr++
		}
	}()
	return c.tx(ctx, true, func() error {
		l, err := c.s.get(logID)
		if err != nil {
			return err
		}
		for _, ci := range cp {
			if ci.ID == "" {
				return serrors.ErrInvalid
			}
		}
		for _, ci := range cp {
			l.chunks[ci.ID] = ci
		}
		return nil
	})
}

var _ = json.Marshal
var _ = sort.Strings
