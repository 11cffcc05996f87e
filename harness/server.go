package main

import (
	"context"
	"fmt"
	"net/url"
	"reflect"
	"time"
	"unsafe"

	"github.com/gin-gonic/gin"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/pkg/storage/postgres"
	"github.com/solarisdb/solaris/zsim/sctx"
	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/sos"
	"google.golang.org/protobuf/proto"
)

const dataDir = "/data/chunks"
const dbFile = "/data/meta/meta.db"

// srvCfg is what the operator configures
type srvCfg struct {
	bunt      bool
	chunk     chunkfs.Config
	maxOpened int
	log       logfs.Config
	scanner   chunkfs.ScannerConfig
	noScanner bool
}

// durable is everything that survives a crash of the server process
type durable struct {
	disk   *sos.Disk
	sql    *sqlStore
	pg     *pgServer
	remote *remoteStore
}

// server is one incarnation of the server process
type server struct {
	c         *Ctx
	node      *sim.Node
	cfg       srvCfg
	svc       *api.Service
	meta      *cache.CachedStorage
	order     []any
	cancel    context.CancelFunc
	pending   []*rpc
	up        bool
	stopping  bool
	startErr  error
	panicSeen bool
	rest      *gin.Engine
	db        *postgres.Db // the connections to the database
	calls     int
	faulty    bool // whether operations of this incarnation are subject to injected faults
}

type rpc struct {
	name string
	ch   chan rpcRes
	done bool
}

type rpcRes struct {
	v       any
	err     error
	crashed bool
	hung    bool
	rest    bool
	total   int64 // of a page read over REST
}

// components in the order of pkg/server
func (s *server) build(ctx context.Context, d *durable) ([]any, error) {
	var meta cache.LogsChunksMetaStorage
	var comps []any
	if s.cfg.bunt {
		meta = buntdb.NewStorage(buntdb.Config{DBFilePath: dbFile})
	} else if s.c.par("pg") > 0 {
		m, db, err := connectPG(ctx, d.pg, max(s.c.par("conns"), 1))
		if err != nil {
			return nil, err
		}
		meta, s.db = m, db
	} else {
		meta = &sqlClient{s: d.sql}
	}
	s.meta = cache.NewCachedStorage(meta)
	provider := chunkfs.NewProvider(dataDir, s.cfg.maxOpened, s.cfg.chunk)
	replicator := chunkfs.NewReplicator(provider.GetFileNameByID)
	s.svc = api.NewService()
	if s.c.par("rest") > 0 {
		var err error
		if s.rest, err = newRest(s.svc); err != nil {
			s.c.HarnessError("rest: %v", err)
		}
	}
	comps = append(comps, s.meta, provider, chunkfs.NewChunkAccessor(), replicator)
	if !s.cfg.noScanner {
		comps = append(comps, chunkfs.NewScanner(replicator, s.cfg.scanner))
	}
	comps = append(comps, &remoteClient{r: d.remote}, logfs.NewLocalLog(s.cfg.log), s.svc)
	return comps, nil
}

// inject sets the fields with the tag inject and returns the components in an order in which every component
// comes after those it depends on. Ties are broken by the seed, as the real injector does it at random.
func inject(comps []any, r *sim.Rng) ([]any, error) {
	deps := make([][]int, len(comps))
	for i, c := range comps {
		v := reflect.ValueOf(c)
		if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
			continue
		}
		v = v.Elem()
		for f := 0; f < v.NumField(); f++ {
			ft := v.Type().Field(f)
			if _, ok := ft.Tag.Lookup("inject"); !ok {
				continue
			}
			found := -1
			for j, d := range comps {
				if reflect.TypeOf(d).AssignableTo(ft.Type) {
					if found >= 0 {
						return nil, fmt.Errorf("ambiguous component for %s.%s", v.Type(), ft.Name)
					}
					found = j
				}
			}
			if found < 0 {
				return nil, fmt.Errorf("no component for %s.%s", v.Type(), ft.Name)
			}
			v.Field(f).Set(reflect.ValueOf(comps[found]))
			deps[i] = append(deps[i], found)
		}
	}
	var order []any
	done := make([]bool, len(comps))
	for len(order) < len(comps) {
		var ready []int
		for i := range comps {
			ok := !done[i]
			for _, d := range deps[i] {
				ok = ok && (done[d] || d == i)
			}
			if ok {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			return nil, fmt.Errorf("cyclic dependency")
		}
		k := ready[r.Intn(len(ready))]
		done[k] = true
		order = append(order, comps[k])
	}
	return order, nil
}

// newServer creates the process; start must be called
func newServer(c *Ctx, name string, d *durable, cfg srvCfg) *server {
	s := &server{c: c, cfg: cfg}
	s.node = sim.NewNode(name, d.disk)
	s.node.OnCrash(func() {
		s.up = false
		for _, p := range s.pending {
			if !p.done {
				p.done = true
				sim.SendNow(p.ch, rpcRes{crashed: true})
			}
		}
		s.pending = nil
	})
	return s
}

// start runs the initialisation; it returns false if the process died or reported an error
func (s *server) start(d *durable) bool {
	r := s.raw("start", 10*time.Minute, func() (any, error) {
		ctx, cancel := sctx.WithCancel(context.Background())
		s.cancel = cancel
		comps, err := s.build(ctx, d)
		if err != nil {
			return nil, err
		}
		order, err := inject(comps, sim.NewRng(s.node.Salt()))
		if err != nil {
			s.c.HarnessError("injection: %v", err)
			return nil, err
		}
		s.order = order
		for _, c := range order {
			if i, ok := c.(interface{ Init(context.Context) error }); ok {
				if err := i.Init(ctx); err != nil {
					return nil, err
				}
			}
		}
		sim.Rel(unsafe.Pointer(s))
		return nil, nil
	})
	if r.hung {
		s.c.Fail("hang", "the server start does not end: %v", sim.Blocked(s.node))
	}
	s.startErr = r.err
	s.up = r.err == nil && !r.crashed && !r.hung
	return s.up
}

// shutdown executes the orderly stop; it reports whether it ended in time
func (s *server) shutdown(limit time.Duration) bool {
	s.stopping = true
	r := s.raw("shutdown", limit, func() (any, error) {
		sim.Acq(unsafe.Pointer(s))
		s.cancel()
		for i := len(s.order) - 1; i >= 0; i-- {
			if x, ok := s.order[i].(interface{ Shutdown() }); ok {
				x.Shutdown()
			}
		}
		return nil, nil
	})
	s.up = false
	return !r.hung
}

// raw runs f as a task of the server and waits for its end
func (s *server) raw(name string, limit time.Duration, f func() (any, error)) rpcRes {
	p := &rpc{name: name, ch: make(chan rpcRes, 1)}
	if s.node.Dead() {
		return rpcRes{crashed: true}
	}
	s.pending = append(s.pending, p)
	sim.GoNamed(name, s.node, func() {
		v, err := f()
		if !p.done {
			p.done = true
			s.drop(p)
			sim.SendNow(p.ch, rpcRes{v: v, err: err})
		}
	})
	// the tolerance is counted in simulated time without the time skipped while tasks could run
	var tm *sim.Timer
	begin, jumped := sim.Mono(), sim.Jumped()
	var watch func()
	watch = func() {
		if p.done {
			return
		}
		if used := sim.Mono() - begin - (sim.Jumped() - jumped); used < limit {
			tm = sim.AddTimer(limit-used, nil, watch)
			return
		}
		p.done = true
		s.drop(p)
		sim.SendNow(p.ch, rpcRes{hung: true, crashed: true})
	}
	tm = sim.AddTimer(limit, nil, watch)
	r := sim.Recv(p.ch)
	tm.Stop()
	return r
}

// call executes a request of a client. cancelAfter>0 cancels its context after that time
func (s *server) call(name string, cancelAfter time.Duration, f func(ctx context.Context) (proto.Message, error)) rpcRes {
	if v := sim.Fault("net.delay"); v != 0 {
		sim.Sleep(time.Duration(v*v) * time.Millisecond)
	}
	if !s.up {
		return rpcRes{crashed: true, err: errDown}
	}
	var cancel context.CancelFunc
	if cancelAfter > 0 {
		sim.AddTimer(cancelAfter, nil, func() {
			if cancel != nil {
				cancel()
			}
		})
	}
	r := s.raw(name, 30*time.Minute, func() (any, error) {
		var ctx context.Context
		sim.Acq(unsafe.Pointer(s)) // the server accepts requests after it was started
		ctx, cancel = sctx.WithCancel(context.Background())
		m, err := f(ctx)
		if err != nil || m == nil || reflect.ValueOf(m).IsNil() {
			return nil, err
		}
		// the answer is marshalled some time after the handler has returned
		for i := sim.S.Rng().Intn(4); i > 0; i-- {
			sim.YS()
		}
		out := proto.Clone(m)
		cc := cancel
		cancel = nil
		cc()
		return out, nil
	})
	if r.hung {
		s.c.Fail("hang", "the request %s does not return. Tasks of the server: %v", name, sim.Blocked(s.node))
	}
	if v := sim.Fault("net.lost"); v != 0 && !r.crashed {
		return rpcRes{crashed: true, err: errDown}
	}
	return r
}

var errDown = fmt.Errorf("the server is not reachable")

func (s *server) append(rq *solaris.AppendRecordsRequest, cancelAfter time.Duration) (*solaris.AppendRecordsResult, rpcRes) {
	if !rq.ExpandIDs && s.useRest() {
		return s.restAppend(rq, cancelAfter)
	}
	in := proto.Clone(rq).(*solaris.AppendRecordsRequest)
	r := s.call("append", cancelAfter, func(ctx context.Context) (proto.Message, error) { return s.svc.AppendRecords(ctx, in) })
	o, _ := r.v.(*solaris.AppendRecordsResult)
	return o, r
}

func (s *server) query(rq *solaris.QueryRecordsRequest, cancelAfter time.Duration) (*solaris.QueryRecordsResult, rpcRes) {
	if s.useRest() {
		o, total, r := s.restQuery("query", rq, cancelAfter)
		r.rest, r.total = true, total
		return o, r
	}
	in := proto.Clone(rq).(*solaris.QueryRecordsRequest)
	r := s.call("query", cancelAfter, func(ctx context.Context) (proto.Message, error) { return s.svc.QueryRecords(ctx, in) })
	o, _ := r.v.(*solaris.QueryRecordsResult)
	return o, r
}

func (s *server) count(rq *solaris.QueryRecordsRequest, cancelAfter time.Duration) (*solaris.CountResult, rpcRes) {
	if s.useRest() {
		_, total, r := s.restQuery("count", rq, cancelAfter)
		if r.err != nil || r.crashed {
			return nil, r
		}
		return &solaris.CountResult{Count: total, Total: -1}, r // the number of all records is not reported
	}
	in := proto.Clone(rq).(*solaris.QueryRecordsRequest)
	r := s.call("count", cancelAfter, func(ctx context.Context) (proto.Message, error) { return s.svc.CountRecords(ctx, in) })
	o, _ := r.v.(*solaris.CountResult)
	return o, r
}

func (s *server) createLog(l *solaris.Log) (*solaris.Log, rpcRes) {
	if s.useRest() {
		return s.restPutLog("POST", "/v1/logs", 201, l)
	}
	in := proto.Clone(l).(*solaris.Log)
	r := s.call("createLog", 0, func(ctx context.Context) (proto.Message, error) { return s.svc.CreateLog(ctx, in) })
	o, _ := r.v.(*solaris.Log)
	return o, r
}

func (s *server) updateLog(l *solaris.Log) (*solaris.Log, rpcRes) {
	if s.useRest() {
		return s.restPutLog("PUT", "/v1/logs/"+url.PathEscape(l.ID), 200, l)
	}
	in := proto.Clone(l).(*solaris.Log)
	r := s.call("updateLog", 0, func(ctx context.Context) (proto.Message, error) { return s.svc.UpdateLog(ctx, in) })
	o, _ := r.v.(*solaris.Log)
	return o, r
}

func (s *server) queryLogs(rq *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, rpcRes) {
	if s.useRest() {
		return s.restQueryLogs(rq)
	}
	in := proto.Clone(rq).(*solaris.QueryLogsRequest)
	r := s.call("queryLogs", 0, func(ctx context.Context) (proto.Message, error) { return s.svc.QueryLogs(ctx, in) })
	o, _ := r.v.(*solaris.QueryLogsResult)
	return o, r
}

func (s *server) deleteLogs(cond string) (*solaris.DeleteLogsResult, rpcRes) {
	if s.useRest() {
		return s.restDeleteLogs(cond)
	}
	r := s.call("deleteLogs", 0, func(ctx context.Context) (proto.Message, error) {
		return s.svc.DeleteLogs(ctx, &solaris.DeleteLogsRequest{Condition: cond})
	})
	o, _ := r.v.(*solaris.DeleteLogsResult)
	return o, r
}

func (s *server) drop(p *rpc) {
	for i, x := range s.pending {
		if x == p {
			s.pending = append(s.pending[:i:i], s.pending[i+1:]...)
			return
		}
	}
}
