package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"time"

	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// viaHTTP: the part of all calls (0..1) that is made by HTTP instead of gRPC.
var viaHTTP float64

// route is how an RPC is called by HTTP.
type route struct{ verb, path string }

var routes = map[string]route{
	"CreateTicket":               {"POST", "/v2/tickets"},
	"DeactivateTickets":          {"DELETE", "/v2/tickets:deactivate"},
	"ActivateTickets":            {"POST", "/v2/tickets:activate"},
	"InvokeMatchmakingFunctions": {"POST", "/v2/matches:fetch"},
	"CreateAssignments":          {"POST", "/v2/assignments:create"},
	"WatchAssignments":           {"POST", "/v2/assignments:watch"},
}

// httpClient is the Open Match client by HTTP/JSON.
type httpClient struct {
	base string
	cl   *http.Client
	rec  *Rec
	mu   sync.Mutex
	r    *rand.Rand
}

func newHTTP(port int, rec *Rec, seed int64) *httpClient {
	return &httpClient{base: fmt.Sprintf("http://127.0.0.1:%d", port), rec: rec, r: rand.New(rand.NewSource(seed)),
		cl: &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: true}}}
}

// encode writes a message as JSON, in one of the ways in which that can be done.
func (h *httpClient) encode(m proto.Message) ([]byte, error) {
	h.mu.Lock()
	o := protojson.MarshalOptions{UseProtoNames: h.r.Intn(2) == 0, EmitUnpopulated: h.r.Intn(3) == 0, UseEnumNumbers: h.r.Intn(2) == 0, Multiline: h.r.Intn(4) == 0}
	h.mu.Unlock()
	return o.Marshal(m)
}

// transport turns a failure of the connection into the error that gRPC would give.
func transport(ctx context.Context, err error) error {
	if e := ctx.Err(); e != nil {
		return status.FromContextError(e).Err()
	}
	return status.Error(codes.Unavailable, "http: "+err.Error())
}

func (h *httpClient) send(ctx context.Context, name string, body []byte) (*http.Response, error) {
	rt := routes[name]
	q, err := http.NewRequestWithContext(ctx, rt.verb, h.base+rt.path, bytes.NewReader(body))
	must(err)
	h.mu.Lock()
	ct := pick(h.r, "application/json", "application/json", "application/x-www-form-urlencoded", "") // the second is what curl says
	h.mu.Unlock()
	if ct != "" {
		q.Header.Set("Content-Type", ct)
	}
	r, err := h.cl.Do(q)
	if err != nil {
		return nil, transport(ctx, err)
	}
	return r, nil
}

// note records what came back of a call: the HTTP status, the gRPC code that the body tells, and how many
// results there were; form: "" or what is wrong about its form.
func (h *httpClient) note(name string, st int, code codes.Code, results int, form string) {
	rt := routes[name]
	h.rec.Add("http", Ev{"m": name, "verb": rt.verb, "path": rt.path, "status": st, "code": code.String(), "results": results, "form": form})
}

// fault reads an error from a body, which is a google.rpc.Status.
func fault(b []byte) (*status.Status, string) {
	var s spb.Status
	if err := (protojson.UnmarshalOptions{}).Unmarshal(b, &s); err != nil {
		return status.New(codes.Unknown, "http: "+string(b)), "no status: " + err.Error()
	}
	if s.Code == 0 {
		return status.New(codes.Unknown, "http: "+string(b)), "an error with code 0"
	}
	return status.FromProto(&s), ""
}

// canonical tells what is wrong with the way in which a message has been written: it must be the JSON form
// of protocol buffers, in which fields that are not set may be missing.
func canonical(b []byte, m proto.Message) string {
	want, err := protojson.MarshalOptions{EmitUnpopulated: true}.Marshal(m)
	if err != nil {
		return err.Error()
	}
	var x, y any
	if err := json.Unmarshal(b, &x); err != nil {
		return err.Error()
	}
	must(json.Unmarshal(want, &y))
	return within(x, y, "")
}

// within: x is y, or y without some of its fields.
func within(x, y any, at string) string {
	switch a := x.(type) {
	case map[string]any:
		b, ok := y.(map[string]any)
		if !ok {
			return "form of " + at
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok {
				return "field " + at + "." + k
			}
			if s := within(v, w, at+"."+k); s != "" {
				return s
			}
		}
		return ""
	case []any:
		b, ok := y.([]any)
		if !ok || len(a) != len(b) {
			return "form of " + at
		}
		for i := range a {
			if s := within(a[i], b[i], at+"[]"); s != "" {
				return s
			}
		}
		return ""
	}
	if x != y {
		return "value of " + at
	}
	return ""
}

func contentType(r *http.Response) string {
	if c := r.Header.Get("Content-Type"); !strings.HasPrefix(c, "application/json") {
		return "content type " + c
	}
	return ""
}

func (h *httpClient) raw(ctx context.Context, name string, body []byte, out proto.Message) error {
	r, err := h.send(ctx, name, body)
	if err != nil {
		return err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return transport(ctx, err)
	}
	if r.StatusCode == 200 {
		form := ""
		if err := protojson.Unmarshal(b, out); err != nil {
			form = "no response: " + err.Error()
		} else if form = canonical(b, out); form == "" {
			form = contentType(r)
		}
		h.note(name, 200, codes.OK, 1, form)
		if form != "" {
			return status.Error(codes.DataLoss, "http: "+form)
		}
		return nil
	}
	s, form := fault(b)
	h.note(name, r.StatusCode, s.Code(), 0, form)
	return s.Err()
}

func (h *httpClient) unary(ctx context.Context, name string, in, out proto.Message) error {
	b, err := h.encode(in)
	if err != nil {
		return status.Error(codes.Internal, "http: "+err.Error())
	}
	return h.raw(ctx, name, b, out)
}

func (h *httpClient) CreateTicket(ctx context.Context, in *pb.CreateTicketRequest, _ ...grpc.CallOption) (*pb.CreateTicketResponse, error) {
	out := &pb.CreateTicketResponse{}
	if err := h.unary(ctx, "CreateTicket", in, out); err != nil {
		return nil, err
	}
	return out, nil
}
func (h *httpClient) DeactivateTickets(ctx context.Context, in *pb.DeactivateTicketsRequest, _ ...grpc.CallOption) (*pb.DeactivateTicketsResponse, error) {
	out := &pb.DeactivateTicketsResponse{}
	return out, h.unary(ctx, "DeactivateTickets", in, out)
}
func (h *httpClient) ActivateTickets(ctx context.Context, in *pb.ActivateTicketsRequest, _ ...grpc.CallOption) (*pb.ActivateTicketsResponse, error) {
	out := &pb.ActivateTicketsResponse{}
	return out, h.unary(ctx, "ActivateTickets", in, out)
}
func (h *httpClient) CreateAssignments(ctx context.Context, in *pb.CreateAssignmentsRequest, _ ...grpc.CallOption) (*pb.CreateAssignmentsResponse, error) {
	out := &pb.CreateAssignmentsResponse{}
	return out, h.unary(ctx, "CreateAssignments", in, out)
}

// frames reads the results of a streaming call.
type frames struct {
	grpc.ClientStream
	h    *httpClient
	ctx  context.Context
	name string
	body []byte
	r    *http.Response
	dec  *json.Decoder
	n    int
	end  error
}

func (f *frames) finish(st int, code codes.Code, form string, err error) error {
	f.h.note(f.name, st, code, f.n, form)
	if f.r != nil {
		f.r.Body.Close()
	}
	f.end = err
	return err
}

// next waits for the next result.  The request is sent by the first call: the caller of a gRPC stream does
// not wait for anything, either.
func (f *frames) next(out proto.Message) error {
	if f.end != nil {
		return f.end
	}
	if f.r == nil {
		r, err := f.h.send(f.ctx, f.name, f.body)
		if err != nil {
			f.end = err
			return err
		}
		f.r = r
		f.dec = json.NewDecoder(r.Body)
	}
	var raw json.RawMessage
	if err := f.dec.Decode(&raw); err != nil {
		if errors.Is(err, io.EOF) {
			return f.finish(f.r.StatusCode, codes.OK, "", io.EOF)
		}
		var syn *json.SyntaxError
		if errors.As(err, &syn) {
			return f.finish(f.r.StatusCode, codes.OK, "no JSON: "+err.Error(), status.Error(codes.DataLoss, "http: "+err.Error()))
		}
		f.r.Body.Close()
		f.end = transport(f.ctx, err)
		return f.end
	}
	var obj map[string]json.RawMessage
	if err := json.Unmarshal(raw, &obj); err != nil || len(obj) != 1 && f.r.StatusCode == 200 {
		return f.finish(f.r.StatusCode, codes.OK, "not one result: "+short(raw), status.Error(codes.DataLoss, "http: "+short(raw)))
	}
	if res, ok := obj["result"]; ok {
		if err := protojson.Unmarshal(res, out); err != nil {
			return f.finish(f.r.StatusCode, codes.OK, "no result: "+err.Error(), status.Error(codes.DataLoss, "http: "+err.Error()))
		}
		form := canonical(res, out)
		if form == "" {
			form = contentType(f.r)
		}
		if form != "" {
			return f.finish(f.r.StatusCode, codes.OK, "no result: "+form, status.Error(codes.DataLoss, "http: "+form))
		}
		f.n++
		return nil
	}
	b := []byte(raw)
	if e, ok := obj["error"]; ok {
		b = e
	}
	s, form := fault(b)
	if more, err := io.ReadAll(f.dec.Buffered()); err == nil && len(bytes.TrimSpace(more)) > 0 {
		form = "more after the error"
	}
	return f.finish(f.r.StatusCode, s.Code(), form, s.Err())
}

func short(b []byte) string {
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}

func (h *httpClient) open(ctx context.Context, name string, in proto.Message) (*frames, error) {
	b, err := h.encode(in)
	if err != nil {
		return nil, status.Error(codes.Internal, "http: "+err.Error())
	}
	return &frames{h: h, ctx: ctx, name: name, body: b}, nil
}

type matchFrames struct{ *frames }

func (f matchFrames) Recv() (*pb.StreamedMmfResponse, error) {
	out := &pb.StreamedMmfResponse{}
	if err := f.next(out); err != nil {
		return nil, err
	}
	return out, nil
}

type watchFrames struct{ *frames }

func (f watchFrames) Recv() (*pb.StreamedWatchAssignmentsResponse, error) {
	out := &pb.StreamedWatchAssignmentsResponse{}
	if err := f.next(out); err != nil {
		return nil, err
	}
	return out, nil
}

func (h *httpClient) InvokeMatchmakingFunctions(ctx context.Context, in *pb.MmfRequest, _ ...grpc.CallOption) (pb.OpenMatchService_InvokeMatchmakingFunctionsClient, error) {
	f, err := h.open(ctx, "InvokeMatchmakingFunctions", in)
	if err != nil {
		return nil, err
	}
	return matchFrames{f}, nil
}
func (h *httpClient) WatchAssignments(ctx context.Context, in *pb.WatchAssignmentsRequest, _ ...grpc.CallOption) (pb.OpenMatchService_WatchAssignmentsClient, error) {
	f, err := h.open(ctx, "WatchAssignments", in)
	if err != nil {
		return nil, err
	}
	return watchFrames{f}, nil
}

// either makes some calls by HTTP, and some by gRPC.
type either struct {
	g    pb.OpenMatchServiceClient
	h    *httpClient
	mu   sync.Mutex
	r    *rand.Rand
	part float64
}

func (e *either) pick() pb.OpenMatchServiceClient {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.r.Float64() < e.part {
		return e.h
	}
	return e.g
}
func (e *either) CreateTicket(ctx context.Context, in *pb.CreateTicketRequest, o ...grpc.CallOption) (*pb.CreateTicketResponse, error) {
	return e.pick().CreateTicket(ctx, in, o...)
}
func (e *either) DeactivateTickets(ctx context.Context, in *pb.DeactivateTicketsRequest, o ...grpc.CallOption) (*pb.DeactivateTicketsResponse, error) {
	return e.pick().DeactivateTickets(ctx, in, o...)
}
func (e *either) ActivateTickets(ctx context.Context, in *pb.ActivateTicketsRequest, o ...grpc.CallOption) (*pb.ActivateTicketsResponse, error) {
	return e.pick().ActivateTickets(ctx, in, o...)
}
func (e *either) InvokeMatchmakingFunctions(ctx context.Context, in *pb.MmfRequest, o ...grpc.CallOption) (pb.OpenMatchService_InvokeMatchmakingFunctionsClient, error) {
	return e.pick().InvokeMatchmakingFunctions(ctx, in, o...)
}
func (e *either) CreateAssignments(ctx context.Context, in *pb.CreateAssignmentsRequest, o ...grpc.CallOption) (*pb.CreateAssignmentsResponse, error) {
	return e.pick().CreateAssignments(ctx, in, o...)
}
func (e *either) WatchAssignments(ctx context.Context, in *pb.WatchAssignmentsRequest, o ...grpc.CallOption) (pb.OpenMatchService_WatchAssignmentsClient, error) {
	return e.pick().WatchAssignments(ctx, in, o...)
}

// waitHTTP waits until something listens.
func waitTCP(addr string, d time.Duration) bool {
	for t0 := time.Now(); time.Since(t0) < d; time.Sleep(5 * time.Millisecond) {
		if c, err := netDial(addr); err == nil {
			c.Close()
			return true
		}
	}
	return false
}
