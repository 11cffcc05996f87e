package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/zsim/sim"
)

// ---------------------------------------------------------------- C22: in-memory object store

var objKeys = []string{"/a", "/b", "/d/a", "/d/b", "/d/e/a", "/da", "/d/e"}
var objPaths = []string{"/", "/d/", "/d/e/", "/x/"}
var objBad = []string{"", "a", "/", "/d/", "//a", "/d//a", "d/a", "/d/ "}
var objBadPaths = []string{"", "a", "/d", "d/", "//"}

type objWorld struct {
	c    *Ctx
	s    sss.Storage
	ops  []*linOp
	nval int
	lens map[int]int
}

func genObjects(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "objects", seed)
	p.MaxSteps = 400_000
	p.P["keys"] = sim.Pick(r, 1, 2, 3, 7)
	p.P["slow"] = sim.Pick(r, 0, 20, 60)
	na := sim.Pick(r, 1, 2, 3, 4)
	n := 8 + r.Intn(14)
	p.Actors = make([][]Op, na)
	for i := 0; i < n; i++ {
		o := Op{K: sim.Pick(r, "put", "put", "put", "get", "get", "list", "list", "del", "del", "bad"), A: int64(r.Intn(p.P["keys"])), B: int64(r.Intn(len(objPaths))), C: int64(r.Intn(8)), N: int64(i + 1)}
		a := r.Intn(na)
		p.Actors[a] = append(p.Actors[a], o)
	}
	return p
}

// objReader delivers a value in pieces, with pauses
type objReader struct {
	w    *objWorld
	b    []byte
	fail bool
	r    *sim.Rng
}

var errSource = errors.New("the source fails")

func (r *objReader) Read(p []byte) (int, error) {
	if r.r.Pct(r.w.c.par("slow")) {
		sim.Sleep(time.Duration(r.r.Intn(2000)) * time.Microsecond)
	}
	sim.YS()
	if len(r.b) == 0 {
		if r.fail {
			return 0, errSource
		}
		return 0, io.EOF
	}
	n := 1 + r.r.Intn(len(r.b))
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && !r.fail && r.r.Pct(50) {
		return n, io.EOF
	}
	return n, nil
}

// ---- the model: "key=value|key=value|" in the order of the keys

func objParse(st string) map[string]string {
	m := map[string]string{}
	for _, e := range strings.Split(st, "|") {
		if k, v, ok := strings.Cut(e, "="); ok {
			m[k] = v
		}
	}
	return m
}

func objState(m map[string]string) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		sb.WriteString(k + "=" + m[k] + "|")
	}
	return sb.String()
}

func objList(m map[string]string, path string) string {
	set := map[string]bool{}
	for k := range m {
		if strings.HasPrefix(k, path) {
			if i := strings.IndexByte(k[len(path):], '/'); i >= 0 {
				k = k[:len(path)+i+1]
			}
			set[k] = true
		}
	}
	return strings.Join(sortedKeys(set), ",")
}

func objValue(n, l int) []byte {
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(n + i*7)
	}
	return b
}

func (w *objWorld) exec(o Op, r *sim.Rng) {
	ctx := context.Background()
	key := objKeys[o.A%int64(len(objKeys))]
	op := &linOp{t0: sim.Tick()}
	switch o.K {
	case "put":
		w.nval++
		v := w.nval
		l := sim.Pick(r, 0, 1, 5, 40, 700)
		w.lens[v] = l
		src := objValue(v, l)
		fail := o.C == 0
		err := w.s.Put(ctx, key, &objReader{w: w, b: src, fail: fail, r: r})
		for i := range src {
			src[i] = 0xEE
		}
		op.name = fmt.Sprintf("put %s=%d", key, v)
		if fail {
			if err == nil {
				w.c.Fail("put", "%s succeeds although its source failed", op.name)
			}
			w.c.Probe("failed source")
			return // no effect
		}
		if err != nil {
			w.c.Fail("put", "%s fails: %v", op.name, err)
		}
		op.step = func(st string) []string {
			m := objParse(st)
			m[key] = fmt.Sprint(v)
			return []string{objState(m)}
		}
	case "get":
		rd, err := w.s.Get(ctx, key)
		op.t1 = sim.Tick()
		res := ""
		if err != nil {
			if !errors.Is(err, gerrors.ErrNotExist) {
				w.c.Fail("get", "get %s fails: %v", key, err)
			}
		} else {
			var b []byte
			buf := make([]byte, 1+r.Intn(64))
			for {
				n, err := rd.Read(buf)
				b = append(b, buf[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					w.c.Fail("get", "reading %s fails: %v", key, err)
					break
				}
				if r.Pct(w.c.par("slow")) {
					sim.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
				sim.YS()
			}
			_ = rd.Close()
			found := 0
			for v := 1; v <= w.nval; v++ {
				if w.lens[v] == len(b) && string(objValue(v, len(b))) == string(b) {
					found = v
					if len(b) > 0 {
						break
					}
				}
			}
			if found == 0 {
				w.c.Fail("value", "get %s returns %d bytes nobody has written as a whole", key, len(b))
				return
			}
			res = fmt.Sprint(found)
			if len(b) == 0 {
				res = "empty"
			}
		}
		op.name = fmt.Sprintf("get %s -> %q", key, res)
		op.step = func(st string) []string {
			v := objParse(st)[key]
			if v == res || res == "empty" && v != "" && w.lens[atoi(v)] == 0 {
				return []string{st}
			}
			return nil
		}
	case "list":
		path := objPaths[o.B%int64(len(objPaths))]
		l, err := w.s.List(ctx, path)
		if err != nil {
			w.c.Fail("list", "list %s fails: %v", path, err)
			return
		}
		l = append([]string(nil), l...)
		sort.Strings(l)
		res := strings.Join(l, ",")
		op.name = fmt.Sprintf("list %s -> %s", path, res)
		op.step = func(st string) []string {
			if objList(objParse(st), path) == res {
				return []string{st}
			}
			return nil
		}
	case "del":
		err := w.s.Delete(ctx, key)
		if err != nil && !errors.Is(err, gerrors.ErrNotExist) {
			w.c.Fail("delete", "delete %s fails: %v", key, err)
		}
		op.name = fmt.Sprintf("delete %s -> %v", key, err)
		op.step = func(st string) []string {
			m := objParse(st)
			if err != nil && m[key] != "" {
				return nil
			}
			delete(m, key)
			return []string{objState(m)}
		}
	case "bad":
		k := objBad[o.C%int64(len(objBad))]
		if err := w.s.Put(ctx, k, strings.NewReader("x")); err == nil {
			w.c.Fail("invalid", "an object with the invalid key %q is stored", k)
		}
		if rd, err := w.s.Get(ctx, k); err == nil {
			_ = rd.Close()
			w.c.Fail("invalid", "an object with the invalid key %q is found", k)
		}
		if err := w.s.Delete(ctx, k); err == nil {
			w.c.Fail("invalid", "an object with the invalid key %q can be deleted", k)
		}
		pt := objBadPaths[o.C%int64(len(objBadPaths))]
		if _, err := w.s.List(ctx, pt); err == nil {
			w.c.Fail("invalid", "the invalid path %q is listed", pt)
		}
		return
	}
	if op.t1 == 0 {
		op.t1 = sim.Tick()
	}
	sim.Note(op.name)
	w.ops = append(w.ops, op)
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

func runObjects(c *Ctx) {
	w := &objWorld{c: c, lens: map[int]int{}}
	p := newProc(c, "proc", nil)
	if !p.do("new", time.Minute, func() { w.s = inmem.NewStorage() }) {
		return
	}
	for ai, ops := range c.p.Actors {
		p.spawn(fmt.Sprintf("actor%d", ai), func() {
			for _, o := range ops {
				w.exec(o, sim.NewRng(hashSeed("obj", c.p.Seed*1000+uint64(o.N))))
			}
		})
	}
	if !p.join(time.Minute) {
		return
	}
	ok, sure, deepest := linearize("", w.ops, 2_000_000)
	if !ok && sure {
		c.Fail("atomic", "no order of the operations explains the results: %s", deepest)
	} else if !ok {
		c.Probe("search given up")
	} else {
		c.Probe("linearizable")
	}
}

func init() {
	register("objects", []string{"C22"}, &scenario{genObjects, runObjects})
	scnInfo["objects"] = scnDesc{
		real:   []string{"golibs/sss, golibs/sss/inmem"},
		stub:   []string{"sources of the objects (slow and failing readers)"},
		assume: []string{"a put takes effect between its call and its return, a get between its call and its return (not while its answer is read)"},
	}
}
