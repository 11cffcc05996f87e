package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/gin-gonic/gin"
	solaris "github.com/solarisdb/solaris/api/gen/solaris/v1"
	restapi "github.com/solarisdb/solaris/api/genpublic/v1"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/api/rest"
	"github.com/solarisdb/solaris/zsim/sim"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// The REST API as another way for the clients to reach a server: the real routes and handlers, with the HTTP connection
// replaced by a direct call.

func init() { gin.SetMode(gin.ReleaseMode) }

func newRest(svc *api.Service) (*gin.Engine, error) {
	g := gin.New()
	g.UseRawPath = true
	g.UnescapePathValues = false
	return g, rest.New(svc).RegisterEPs(g)
}

// useRest decides whether a call goes over REST
func (s *server) useRest() bool {
	p := s.c.par("rest")
	if p == 0 {
		return false
	}
	s.calls++
	if s.c.par("restbad") > 0 && s.up && sim.NewRng(hashSeed("bad", s.c.p.Seed*4099+uint64(s.calls))).Pct(s.c.par("restbad")) {
		s.badRest()
	}
	return sim.NewRng(hashSeed("rest", s.c.p.Seed*4099+uint64(s.calls))).Pct(p)
}

// http executes one request inside the server
func (s *server) http(ctx context.Context, method, path string, q url.Values, ctype string, body []byte) *httptest.ResponseRecorder {
	if len(q) > 0 {
		path += "?" + q.Encode()
	}
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	rq, err := http.NewRequestWithContext(ctx, method, "http://server"+path, rd)
	if err != nil {
		s.c.HarnessError("request: %v", err)
	}
	if ctype != "" {
		rq.Header.Set("Content-Type", ctype)
	}
	rec := httptest.NewRecorder()
	s.rest.ServeHTTP(rec, rq)
	return rec
}

// restErr turns an unsuccessful answer into an error
func (s *server) restErr(what string, rec *httptest.ResponseRecorder) error {
	if rec.Code < 400 || rec.Code > 599 {
		s.c.Fail("rest-status", "%s is answered with the status %d", what, rec.Code)
	}
	msg := rec.Body.String()
	switch rec.Code {
	case http.StatusNotFound:
		return fmt.Errorf("%s: %w", msg, gerrors.ErrNotExist)
	case http.StatusBadRequest:
		return fmt.Errorf("%s: %w", msg, gerrors.ErrInvalid)
	case http.StatusConflict:
		return fmt.Errorf("%s: %w", msg, gerrors.ErrConflict)
	}
	return fmt.Errorf("status %d: %s", rec.Code, msg)
}

// restDecode reads a successful answer: it must have the fields that the API description requires, of the right type
func (s *server) restDecode(what string, rec *httptest.ResponseRecorder, want int, out any, required map[string]byte) error {
	if rec.Code != want {
		return s.restErr(what, rec)
	}
	if ct := rec.Header().Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		s.c.Fail("rest-body", "the answer to %s has the content type %q", what, ct)
	}
	var raw map[string]json.RawMessage
	if err := json.Unmarshal(rec.Body.Bytes(), &raw); err != nil {
		s.c.Fail("rest-body", "the answer to %s is %q", what, clip(rec.Body.String(), 100))
		return err
	}
	s.restFields(what, raw, required)
	if err := json.Unmarshal(rec.Body.Bytes(), out); err != nil {
		s.c.Fail("rest-body", "the answer to %s is %q: %v", what, clip(rec.Body.String(), 100), err)
		return err
	}
	return nil
}

func (s *server) restFields(what string, raw map[string]json.RawMessage, required map[string]byte) {
	for _, k := range sortedKeys(required) {
		t := required[k]
		v, ok := raw[k]
		first := byte(0)
		if len(v) > 0 {
			first = v[0]
		}
		if first >= '0' && first <= '9' || first == '-' {
			first = '0'
		}
		if !ok || first != t {
			s.c.Fail("rest-field", "the field %s in the answer to %s is %q", k, what, clip(string(v), 60))
			continue
		}
		if t == '[' {
			var l []map[string]json.RawMessage
			_ = json.Unmarshal(v, &l)
			for _, e := range l {
				if _, ok := e["payload"]; ok {
					s.restFields(what, e, map[string]byte{"id": '"', "logId": '"', "payload": '"', "createdAt": '"'})
				} else {
					s.restFields(what, e, logFields)
				}
			}
		}
	}
}

var logFields = map[string]byte{"id": '"', "tags": '{', "createdAt": '"', "updatedAt": '"'}

func restLog(l *restapi.Log) *solaris.Log {
	return &solaris.Log{ID: l.Id, Tags: l.Tags, CreatedAt: timestamppb.New(l.CreatedAt), UpdatedAt: timestamppb.New(l.UpdatedAt)}
}

func jsonOf(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

const restJSON = "application/json"

func (s *server) restAppend(in *solaris.AppendRecordsRequest, cancelAfter time.Duration) (*solaris.AppendRecordsResult, rpcRes) {
	rq := restapi.CreateRecordsRequest{Records: []restapi.CreateRecordRequest{}}
	for _, r := range in.Records {
		rq.Records = append(rq.Records, restapi.CreateRecordRequest{Payload: r.Payload})
	}
	body := jsonOf(rq)
	r := s.call("append", cancelAfter, func(ctx context.Context) (proto.Message, error) {
		rec := s.http(ctx, "POST", "/v1/logs/"+url.PathEscape(in.LogID)+"/records", nil, restJSON, body)
		var o restapi.CreateRecordsResponse
		if err := s.restDecode("an append", rec, 201, &o, map[string]byte{"added": '0'}); err != nil {
			return nil, err
		}
		return &solaris.AppendRecordsResult{Added: int64(o.Added)}, nil
	})
	o, _ := r.v.(*solaris.AppendRecordsResult)
	s.c.Probe("rest-append")
	return o, r
}

// restQuery reads a page; total is the number of all matching records
func (s *server) restQuery(name string, in *solaris.QueryRecordsRequest, cancelAfter time.Duration) (*solaris.QueryRecordsResult, int64, rpcRes) {
	q := url.Values{}
	opt := func(k, v string, always bool) {
		if v != "" || always {
			q.Set(k, v)
		}
	}
	opt("logsCondFilter", in.LogsCondition, false)
	opt("recordsCondFilter", in.Condition, false)
	for _, id := range in.LogIDs {
		q.Add("logIds", id)
	}
	if in.Descending {
		q.Set("desc", "true")
	} else if s.calls%2 == 0 {
		q.Set("desc", "false")
	}
	opt("fromPageId", in.StartRecordID, false)
	opt("limit", strconv.FormatInt(in.Limit, 10), true)
	total := int64(-1)
	r := s.call(name, cancelAfter, func(ctx context.Context) (proto.Message, error) {
		rec := s.http(ctx, "GET", "/v1/records", q, "", nil)
		var o restapi.QueryRecordsResult
		if err := s.restDecode("a query", rec, 200, &o, map[string]byte{"items": '[', "total": '0'}); err != nil {
			return nil, err
		}
		total = int64(o.Total)
		res := &solaris.QueryRecordsResult{}
		for i := range o.Items {
			x := &o.Items[i]
			res.Records = append(res.Records, &solaris.Record{ID: x.Id, LogID: x.LogId, Payload: x.Payload, CreatedAt: timestamppb.New(x.CreatedAt)})
		}
		if o.NextPageId != nil {
			if *o.NextPageId == "" {
				s.c.Fail("rest-field", "the field nextPageId in the answer to a query is empty")
			}
			res.NextPageID = *o.NextPageId
		}
		return res, nil
	})
	o, _ := r.v.(*solaris.QueryRecordsResult)
	s.c.Probe("rest-query")
	return o, total, r
}

func (s *server) restPutLog(method, path string, want int, in *solaris.Log) (*solaris.Log, rpcRes) {
	tags := restapi.Tags(in.Tags)
	if tags == nil {
		tags = restapi.Tags{}
	}
	body := jsonOf(restapi.CreateLogRequest{Tags: tags})
	r := s.call("putLog", 0, func(ctx context.Context) (proto.Message, error) {
		var o restapi.Log
		rec := s.http(ctx, method, path, nil, restJSON, body)
		if err := s.restDecode(method+" log", rec, want, &o, logFields); err != nil {
			return nil, err
		}
		return restLog(&o), nil
	})
	o, _ := r.v.(*solaris.Log)
	s.c.Probe("rest-" + method)
	return o, r
}

func (s *server) restQueryLogs(in *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, rpcRes) {
	q := url.Values{}
	if in.Condition != "" {
		q.Set("logsCondFilter", in.Condition)
	}
	if in.PageID != "" {
		q.Set("fromPageId", in.PageID)
	}
	if in.Limit != 0 || s.calls%2 == 0 {
		q.Set("limit", strconv.FormatInt(in.Limit, 10))
	}
	r := s.call("queryLogs", 0, func(ctx context.Context) (proto.Message, error) {
		rec := s.http(ctx, "GET", "/v1/logs", q, "", nil)
		var o restapi.QueryLogsResult
		if err := s.restDecode("a list of logs", rec, 200, &o, map[string]byte{"items": '[', "total": '0'}); err != nil {
			return nil, err
		}
		res := &solaris.QueryLogsResult{Total: int64(o.Total)}
		for i := range o.Items {
			res.Logs = append(res.Logs, restLog(&o.Items[i]))
		}
		if o.NextPageId != nil {
			res.NextPageID = *o.NextPageId
		}
		return res, nil
	})
	o, _ := r.v.(*solaris.QueryLogsResult)
	s.c.Probe("rest-list")
	return o, r
}

// restDeleteLogs reports the number of the deleted logs as entries without a name
func (s *server) restDeleteLogs(cond string) (*solaris.DeleteLogsResult, rpcRes) {
	body := jsonOf(restapi.DeleteLogsRequest{FilterCondition: cond})
	r := s.call("deleteLogs", 0, func(ctx context.Context) (proto.Message, error) {
		rec := s.http(ctx, "DELETE", "/v1/logs", nil, restJSON, body)
		var o restapi.DeleteLogsResponse
		if err := s.restDecode("a deletion", rec, 200, &o, map[string]byte{"deleted": '0'}); err != nil {
			return nil, err
		}
		if o.Deleted < 0 {
			s.c.Fail("rest-field", "a deletion reports %d deleted logs", o.Deleted)
		}
		res := &solaris.DeleteLogsResult{}
		for i := 0; i < o.Deleted && i < 10000; i++ {
			res.DeletedIDs = append(res.DeletedIDs, "")
		}
		return res, nil
	})
	o, _ := r.v.(*solaris.DeleteLogsResult)
	s.c.Probe("rest-delete")
	return o, r
}

// badRest sends a request that must be refused, and must have no effect
func (s *server) badRest() {
	rng := sim.NewRng(hashSeed("badrest", s.c.p.Seed*4099+uint64(s.calls)))
	method, path, ctype, body := "POST", "/v1/logs", restJSON, `{"tags":{"grp":"g0"}}`
	what, unknown := "", false
	q := url.Values{}
	switch rng.Intn(8) {
	case 0:
		what, ctype = "a creation with the content type text/plain", "text/plain"
	case 1:
		what, body = "a creation with a broken body", body[:1+rng.Intn(len(body)-1)]
	case 2:
		unknown = true
		what, method, path = "an update of an unknown log", "PUT", "/v1/logs/00000000000000000000000000"
	case 3:
		unknown = true
		what, path, body = "an append to an unknown log", "/v1/logs/00000000000000000000000000/records", `{"records":[{"payload":"eA=="}]}`
	case 4:
		what, method, path, body = "a query with a bad limit", "GET", "/v1/records", ""
		q.Set("limit", "x")
	case 5:
		what, method, path, body = "a query with a bad condition", "GET", "/v1/records", ""
		q.Set("logsCondFilter", "tag(")
		q.Set("limit", "10")
	case 6:
		what, method, body = "a deletion with a bad condition", "DELETE", `{"filterCondition":"logID = "}`
	case 7:
		what, method, body = "a deletion with a broken body", "DELETE", `{"filterCondition":`
	}
	var code int
	r := s.call("bad", 0, func(ctx context.Context) (proto.Message, error) {
		var b []byte
		if body != "" {
			b = []byte(body)
		}
		rec := s.http(ctx, method, path, q, ctype, b)
		code = rec.Code
		if code < 300 {
			s.c.Fail("rest-bad", "%s is answered with the status %d", what, code)
			return nil, nil
		}
		_ = s.restErr(what, rec)
		return nil, fmt.Errorf("refused")
	})
	if r.crashed {
		return
	}
	if unknown && code != http.StatusNotFound && (code < 500 || len(s.c.p.Rates) == 0 && !s.stopping && s.up) {
		s.c.Fail("rest-status", "%s is answered with the status %d", what, code)
	}
	s.c.Probe("rest-refused")
}
