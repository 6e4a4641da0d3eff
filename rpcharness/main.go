// Command verifrpc drives the generated Go client and server of the
// repository's reference API (tests/client, tests/server) through planned calls
// and logs everything a user of them can observe: what reaches the server, the
// hooks and the handlers, what is answered and what the caller gets.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"
)

// what a hook or handler is to do
type plan struct {
	Kind  string          `json:"kind"` // ok, err, plain, wrapped, panic, bad
	Code  int             `json:"code"`
	Text  string          `json:"text"`
	Value json.RawMessage `json:"value"`
}

type call struct {
	M    string          `json:"m"`
	Args json.RawMessage `json:"args"`
	Bad  bool            `json:"bad"` // an argument that has no JSON form
	Raw  *struct {
		Verb, Path string
		CT         []string
		Body       string // base64
		Short      bool   // the body cannot be read to its end
	} `json:"raw"`
	Pre  string `json:"pre"` // cancel
	Net  string `json:"net"` // what happens to the reply
	Hook plan   `json:"hook"`
	Hdl  plan   `json:"hdl"`
	Repl plan   `json:"repl"` // what the error hook replaces errors by
}

type kase struct {
	ID    int    `json:"id"`
	Kind  string `json:"kind"`
	Calls []call `json:"calls"`
	Sched []int  `json:"sched"`
	Free  bool   `json:"free"`
	Cfg   struct {
		Hook, OnErr, Recover, Real, Mount bool
		Prefix                            string
	} `json:"cfg"`
}

type rec map[string]any

type observation struct {
	ID    int    `json:"id"`
	St    string `json:"st"`
	Msg   string `json:"msg"`
	Leak  int    `json:"leak"`
	Both  bool   `json:"both"`
	Ev    []rec  `json:"ev"`
	Pos   []int  `json:"pos"`
	Chain []int  `json:"chain"`
	Ops   []int  `json:"ops"`
	S     rec    `json:"s"`
}

type runner struct {
	k    *kase
	mu   sync.Mutex
	ev   []rec
	gate []chan struct{}
	at   []chan struct{}
	open chan struct{}
}

func (r *runner) log(c int, e string, m rec) {
	if m == nil {
		m = rec{}
	}
	m["c"], m["e"] = c, e
	r.mu.Lock()
	r.ev = append(r.ev, m)
	r.mu.Unlock()
}

// wait for the schedule to let the call go on
func (r *runner) stop(c int) {
	if c < 1 || c > len(r.gate) || len(r.k.Sched) == 0 {
		return
	}
	select {
	case r.at[c-1] <- struct{}{}:
	case <-r.open:
		return
	}
	select {
	case <-r.gate[c-1]:
	case <-r.open:
	}
}

func idOf(h http.Header) int {
	v := h.Values("X-Call")
	if len(v) != 1 {
		return 0
	}
	n, _ := strconv.Atoi(v[0])
	return n
}

func canon(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "?" + string(b)
	}
	if _, err := d.Token(); err != io.EOF {
		return "?" + string(b)
	}
	return plainJSON(v)
}

func plainJSON(v any) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return "?" + err.Error()
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func trimmed(ss []string) string {
	var out []string
	for _, s := range ss {
		out = append(out, strings.Trim(s, " "))
	}
	return strings.Join(out, "|")
}

func toText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?" + err.Error()
	}
	return canon(b)
}

var named = map[int]server.WebRPCError{}

func init() {
	for _, e := range []server.WebRPCError{
		server.ErrWebrpcEndpoint, server.ErrWebrpcRequestFailed, server.ErrWebrpcBadRoute, server.ErrWebrpcBadMethod, server.ErrWebrpcBadRequest, server.ErrWebrpcBadResponse,
		server.ErrWebrpcServerPanic, server.ErrWebrpcInternalError, server.ErrWebrpcClientAborted, server.ErrWebrpcStreamLost,
		server.ErrUnauthorized, server.ErrExpiredToken, server.ErrInvalidToken, server.ErrDeactivated, server.ErrConfirmAccount, server.ErrAccessDenied, server.ErrMissingArgument,
		server.ErrUnexpectedValue, server.ErrRateLimited, server.ErrDatabaseDown, server.ErrElasticDown, server.ErrNotImplemented, server.ErrUserNotFound, server.ErrUserBusy,
		server.ErrInvalidUsername, server.ErrFileTooBig, server.ErrFileInfected, server.ErrFileType,
	} {
		named[e.Code] = e
	}
}

func (p plan) err() error {
	switch p.Kind {
	case "err":
		e, ok := named[p.Code]
		if !ok {
			panic("no such error")
		}
		if p.Text != "" {
			e = e.WithCause(errors.New(p.Text))
		}
		return e
	case "plain":
		return errors.New(p.Text)
	case "wrapped":
		return fmt.Errorf("%s%w", p.Text, named[p.Code])
	case "panic":
		panic(p.Text)
	}
	return nil
}

// the server's side

type impl struct{ r *runner }

func (s impl) enter(ctx context.Context, m string, args rec) plan {
	c, path := 0, ""
	req := server.RequestFromContext(ctx)
	if req != nil {
		c, path = idOf(req.Header), req.URL.Path
	}
	w := server.ResponseWriterFromContext(ctx)
	if w != nil {
		w.Header().Add("X-Own", strconv.Itoa(c))
	}
	mm := ""
	if x, ok := server.MethodCtx(ctx); ok {
		mm = x.Service() + "/" + x.Name()
	}
	a := "{}"
	if args != nil {
		a = toText(args)
	}
	s.r.log(c, "handler", rec{"m": m, "args": a, "svc": server.ServiceNameFromContext(ctx), "name": server.MethodNameFromContext(ctx), "path": path, "own": w != nil, "meta": mm})
	if c < 1 || c > len(s.r.k.Calls) {
		panic("a request of no call")
	}
	s.r.stop(c)
	return s.r.k.Calls[c-1].Hdl
}

func (s impl) leave(p plan, v any) error {
	if err := p.err(); err != nil {
		return err
	}
	if v != nil && len(p.Value) > 0 {
		if err := json.Unmarshal(p.Value, v); err != nil {
			panic("plan: " + err.Error())
		}
	}
	return nil
}

type one struct {
	One *server.Simple `json:"one"`
}
type multi struct {
	One   *server.Simple `json:"one"`
	Two   *server.Simple `json:"two"`
	Three *server.Simple `json:"three"`
}

func (s impl) GetEmpty(ctx context.Context) error {
	return s.leave(s.enter(ctx, "GetEmpty", nil), nil)
}
func (s impl) GetError(ctx context.Context) error {
	return s.leave(s.enter(ctx, "GetError", nil), nil)
}
func (s impl) GetOne(ctx context.Context) (*server.Simple, error) {
	var v one
	err := s.leave(s.enter(ctx, "GetOne", nil), &v)
	return v.One, err
}
func (s impl) SendOne(ctx context.Context, a *server.Simple) error {
	return s.leave(s.enter(ctx, "SendOne", rec{"one": a}), nil)
}
func (s impl) GetMulti(ctx context.Context) (*server.Simple, *server.Simple, *server.Simple, error) {
	var v multi
	err := s.leave(s.enter(ctx, "GetMulti", nil), &v)
	return v.One, v.Two, v.Three, err
}
func (s impl) SendMulti(ctx context.Context, a, b, c *server.Simple) error {
	return s.leave(s.enter(ctx, "SendMulti", rec{"one": a, "two": b, "three": c}), nil)
}
func (s impl) GetComplex(ctx context.Context) (*server.Complex, error) {
	var v struct{ Complex *server.Complex }
	p := s.enter(ctx, "GetComplex", nil)
	err := s.leave(p, &v)
	if p.Kind == "bad" {
		v.Complex = &server.Complex{Meta: map[string]any{"x": make(chan int)}}
	}
	return v.Complex, err
}
func (s impl) SendComplex(ctx context.Context, a *server.Complex) error {
	return s.leave(s.enter(ctx, "SendComplex", rec{"complex": a}), nil)
}
func (s impl) GetEnumList(ctx context.Context) ([]server.Status, error) {
	var v struct{ List []server.Status }
	err := s.leave(s.enter(ctx, "GetEnumList", nil), &v)
	return v.List, err
}
func (s impl) GetEnumMap(ctx context.Context) (map[server.Access]uint64, error) {
	var v struct{ Map map[server.Access]uint64 }
	err := s.leave(s.enter(ctx, "GetEnumMap", nil), &v)
	return v.Map, err
}
func (s impl) GetSchemaError(ctx context.Context, code int) error {
	return s.leave(s.enter(ctx, "GetSchemaError", rec{"code": code}), nil)
}

func errRec(e server.WebRPCError) rec {
	return rec{"name": e.Name, "code": e.Code, "msg": e.Message, "status": e.HTTPStatus, "cause": e.Cause}
}

func (r *runner) handler() http.Handler {
	o := &server.Options{}
	if r.k.Cfg.Hook {
		o.OnRequest = func(w http.ResponseWriter, q *http.Request) error {
			c := idOf(q.Header)
			r.log(c, "hook", rec{"path": q.URL.Path})
			w.Header().Add("X-Hook", strconv.Itoa(c))
			r.stop(c)
			return r.k.Calls[c-1].Hook.err()
		}
	}
	if r.k.Cfg.OnErr {
		o.OnError = func(q *http.Request, e *server.WebRPCError) {
			c := idOf(q.Header)
			r.log(c, "onerror", rec{"err": errRec(*e)})
			if p := r.k.Calls[c-1].Repl; p.Kind == "err" {
				*e = p.err().(server.WebRPCError)
			}
		}
	}
	var h http.Handler = server.NewTestApiServer(impl{r}, o)
	if r.k.Cfg.Mount {
		mux := http.NewServeMux()
		var api server.Server
		api.TestApi = impl{r}
		for _, m := range api.Methods(o) {
			mux.Handle(m.Path, m.Handler)
		}
		h = mux
	}
	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		c := idOf(q.Header)
		m := rec{"verb": q.Method, "path": q.URL.Path, "ct": trimmed(q.Header.Values("Content-Type")), "accept": q.Header.Get("Accept"), "multi": strings.Join(q.Header.Values("X-Multi"), "|"), "webrpc": q.Header.Get(server.WebrpcHeader), "body": ""}
		if raw := r.k.Calls[c-1].Raw; raw == nil {
			b, err := io.ReadAll(q.Body)
			if err != nil {
				panic(err)
			}
			m["body"] = canon(b)
			q.Body = io.NopCloser(bytes.NewReader(b))
		} else if raw.Short {
			q.Body = io.NopCloser(io.MultiReader(q.Body, broken{}))
		}
		r.log(c, "request", m)
		if r.k.Cfg.Recover {
			defer func() { recover() }()
		}
		if r.k.Calls[c-1].Raw == nil {
			u, _ := url.Parse(r.k.Cfg.Prefix)
			q.URL.Path = strings.TrimPrefix(q.URL.Path, strings.TrimSuffix(u.Path, "/"))
		}
		h.ServeHTTP(w, q)
	})
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, errors.New("the connection broke") }

// the client's side

type body struct {
	io.Reader
	fail bool
	real io.Closer
}

func (b body) Close() error {
	b.real.Close()
	if b.fail {
		return errors.New("cannot close")
	}
	return nil
}

type transport struct {
	r   *runner
	c   int
	h   http.Handler
	url string
	cl  *http.Client
}

func (t transport) Do(q *http.Request) (*http.Response, error) {
	cl := t.r.k.Calls[t.c-1]
	t.r.log(t.c, "send", rec{"verb": q.Method, "url": strings.TrimPrefix(q.URL.String(), t.url)})
	t.r.stop(t.c)
	if cl.Net == "down" {
		return nil, errors.New("connection refused")
	}
	resp, err := t.deliver(q)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return nil, err
	}
	t.r.log(t.c, "reply", rec{"status": resp.StatusCode, "ct": strings.Join(resp.Header.Values("Content-Type"), "|"), "allow": strings.Join(resp.Header.Values("Allow"), "|"), "webrpc": strings.Join(resp.Header.Values(server.WebrpcHeader), "|"),
		"own": strings.Join(resp.Header.Values("X-Own"), "|"), "hook": strings.Join(resp.Header.Values("X-Hook"), "|"), "body": replyBody(q.Method, resp.StatusCode, b)})
	t.r.stop(t.c)
	switch cl.Net {
	case "lost":
		return nil, errors.New("connection reset")
	case "cut":
		resp.Body = body{io.MultiReader(bytes.NewReader(b[:len(b)/2]), broken{}), false, resp.Body}
	case "half":
		resp.Body = body{bytes.NewReader(b[:len(b)/2]), false, resp.Body}
	case "html":
		resp.StatusCode = 502
		resp.Body = body{strings.NewReader("<html>Bad Gateway</html>"), false, resp.Body}
	case "noclose":
		resp.Body = body{bytes.NewReader(b), true, resp.Body}
	default:
		resp.Body = body{bytes.NewReader(b), false, resp.Body}
	}
	return resp, nil
}

func replyBody(verb string, status int, b []byte) any {
	if verb == "HEAD" {
		return rec{"head": true}
	}
	if status != 200 {
		var e server.WebRPCError
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		if err := d.Decode(&e); err != nil {
			return rec{"bad": string(b)}
		}
		return errRec(e)
	}
	return rec{"value": canon(b)}
}

func (t transport) deliver(q *http.Request) (resp *http.Response, err error) {
	if t.r.k.Cfg.Real {
		return t.cl.Do(q)
	}
	if err := q.Context().Err(); err != nil {
		return nil, err
	}
	in := httptest.NewRequest(q.Method, q.URL.String(), q.Body).WithContext(q.Context())
	in.Header = q.Header.Clone()
	w := httptest.NewRecorder()
	defer func() {
		if x := recover(); x != nil { // what net/http does
			resp, err = nil, errors.New("EOF")
		}
	}()
	t.h.ServeHTTP(w, in)
	return w.Result(), nil
}

// what the caller gets
func result(err error, v func() any) rec {
	if err == nil {
		x := "{}"
		if v != nil {
			x = toText(v())
		}
		return rec{"ok": true, "value": x, "err": rec{}}
	}
	e, ok := err.(client.WebRPCError)
	m := rec{"typed": ok, "name": e.Name, "code": e.Code, "msg": e.Message, "status": e.HTTPStatus, "cause": e.Cause}
	u := ""
	if x := errors.Unwrap(err); x != nil {
		u = x.Error()
	}
	m["unwrapped"] = u == e.Cause
	m["canceled"] = errors.Is(err, context.Canceled)
	var is []int
	for _, x := range clientErrs {
		if errors.Is(err, x) {
			is = append(is, x.Code)
		}
	}
	m["is"] = is
	return rec{"ok": false, "value": "", "err": m}
}

var clientErrs = []client.WebRPCError{
	client.ErrWebrpcEndpoint, client.ErrWebrpcRequestFailed, client.ErrWebrpcBadRoute, client.ErrWebrpcBadMethod, client.ErrWebrpcBadRequest, client.ErrWebrpcBadResponse,
	client.ErrWebrpcServerPanic, client.ErrWebrpcInternalError, client.ErrWebrpcClientAborted, client.ErrWebrpcStreamLost,
	client.ErrUnauthorized, client.ErrExpiredToken, client.ErrInvalidToken, client.ErrDeactivated, client.ErrConfirmAccount, client.ErrAccessDenied, client.ErrMissingArgument,
	client.ErrUnexpectedValue, client.ErrRateLimited, client.ErrDatabaseDown, client.ErrElasticDown, client.ErrNotImplemented, client.ErrUserNotFound, client.ErrUserBusy,
	client.ErrInvalidUsername, client.ErrFileTooBig, client.ErrFileInfected, client.ErrFileType,
}

type cone struct {
	One *client.Simple `json:"one"`
}
type cmulti struct {
	One   *client.Simple `json:"one"`
	Two   *client.Simple `json:"two"`
	Three *client.Simple `json:"three"`
}

func decode(b json.RawMessage, v any) {
	if err := json.Unmarshal(b, v); err != nil {
		panic("plan: " + err.Error())
	}
}

func (r *runner) call(c int, base string, h client.HTTPClient, shared client.TestApiClient) {
	k := r.k.Calls[c-1]
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), callKey{}, c))
	defer cancel()
	if k.Pre == "cancel" {
		cancel()
	}
	if k.Raw != nil {
		b, _ := base64.StdEncoding.DecodeString(k.Raw.Body)
		q, err := http.NewRequestWithContext(ctx, k.Raw.Verb, base+k.Raw.Path, bytes.NewReader(b))
		if err != nil {
			panic("plan: " + err.Error())
		}
		q.Header.Set("X-Call", strconv.Itoa(c))
		for _, x := range k.Raw.CT {
			q.Header.Add("Content-Type", x)
		}
		resp, err := h.Do(q)
		if err != nil {
			r.log(c, "done", rec{"ok": false, "value": "", "err": rec{"typed": false}})
			return
		}
		resp.Body.Close()
		r.log(c, "done", rec{"ok": true, "value": "", "err": rec{}})
		return
	}
	own := http.Header{"X-Call": {strconv.Itoa(c)}, "X-Multi": {"a", "b"}}
	ctx, err := client.WithHTTPRequestHeaders(ctx, own)
	if err != nil {
		panic(err)
	}
	own["X-Call"][0] = "0" // the headers were copied
	own.Add("X-Multi", "c")
	api := shared
	var v func() any
	switch k.M {
	case "GetEmpty":
		err = api.GetEmpty(ctx)
	case "GetError":
		err = api.GetError(ctx)
	case "GetOne":
		var x cone
		x.One, err = api.GetOne(ctx)
		v = func() any { return x }
	case "SendOne":
		var x cone
		decode(k.Args, &x)
		err = api.SendOne(ctx, x.One)
	case "GetMulti":
		var x cmulti
		x.One, x.Two, x.Three, err = api.GetMulti(ctx)
		v = func() any { return x }
	case "SendMulti":
		var x cmulti
		decode(k.Args, &x)
		err = api.SendMulti(ctx, x.One, x.Two, x.Three)
	case "GetComplex":
		var x struct {
			Complex *client.Complex `json:"complex"`
		}
		x.Complex, err = api.GetComplex(ctx)
		v = func() any { return x }
	case "SendComplex":
		var x struct {
			Complex *client.Complex `json:"complex"`
		}
		decode(k.Args, &x)
		if k.Bad {
			x.Complex = &client.Complex{Meta: map[string]any{"x": make(chan int)}}
		}
		err = api.SendComplex(ctx, x.Complex)
	case "GetEnumList":
		var x struct {
			List []client.Status `json:"list"`
		}
		x.List, err = api.GetEnumList(ctx)
		v = func() any { return x }
	case "GetEnumMap":
		var x struct {
			Map map[client.Access]uint64 `json:"map"`
		}
		x.Map, err = api.GetEnumMap(ctx)
		v = func() any { return x }
	case "GetSchemaError":
		var x struct{ Code int }
		decode(k.Args, &x)
		err = api.GetSchemaError(ctx, x.Code)
	default:
		panic("no such method")
	}
	r.log(c, "done", result(err, v))
}

type callKey struct{}

// one HTTP client for all calls: the call is named by the context it is given
type sharedClient struct {
	r   *runner
	h   http.Handler
	url string
	cl  *http.Client
}

func (s sharedClient) Do(q *http.Request) (*http.Response, error) {
	c, _ := q.Context().Value(callKey{}).(int)
	return transport{s.r, c, s.h, s.url, s.cl}.Do(q)
}

func run(k *kase) (o *observation) {
	o = &observation{ID: k.ID, St: "ok", S: rec{}, Pos: []int{}, Chain: []int{}, Ops: []int{}}
	r := &runner{k: k, open: make(chan struct{})}
	for range k.Calls {
		r.gate = append(r.gate, make(chan struct{}))
		r.at = append(r.at, make(chan struct{}))
	}
	base := "http://api.test"
	h := r.handler()
	cl := &http.Client{}
	if k.Cfg.Real {
		srv := httptest.NewUnstartedServer(h)
		srv.Config.ErrorLog = nolog
		srv.Start()
		defer srv.Close()
		tr := &http.Transport{}
		cl.Transport = tr
		defer tr.CloseIdleConnections()
		base = srv.URL
	}
	hc := sharedClient{r, h, base, cl}
	api := client.NewClient(base+k.Cfg.Prefix, hc).TestApi
	done := make([]chan struct{}, len(k.Calls))
	start := func(c int) {
		done[c-1] = make(chan struct{})
		go func() {
			defer close(done[c-1])
			r.call(c, base, hc, api)
		}()
	}
	for _, c := range k.Sched {
		if done[c-1] == nil {
			start(c)
		} else {
			select {
			case <-done[c-1]:
				continue
			case r.gate[c-1] <- struct{}{}:
			}
		}
		select {
		case <-done[c-1]:
		case <-r.at[c-1]:
		}
	}
	close(r.open)
	for c := range k.Calls {
		if done[c] == nil {
			start(c + 1)
		}
		if !k.Free {
			<-done[c]
		}
	}
	for c := range k.Calls {
		<-done[c]
	}
	o.Ev = r.ev
	return o
}

func main() {
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	from := flag.Int("from", 0, "")
	limit := flag.Int("timeout", 20, "")
	flag.Parse()
	f, err := os.Open(*in)
	if err != nil {
		panic(err)
	}
	w, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	base := runtime.NumGoroutine()
	for n := 0; sc.Scan(); n++ {
		if n < *from {
			continue
		}
		var k kase
		if err := json.Unmarshal(sc.Bytes(), &k); err != nil {
			panic(err)
		}
		fmt.Fprintf(os.Stderr, "case %d\n", n)
		timer := time.AfterFunc(time.Duration(*limit)*time.Second, func() {
			fmt.Fprintln(os.Stderr, "verif: timeout")
			os.Exit(99)
		})
		o := run(&k)
		timer.Stop()
		for i := 0; runtime.NumGoroutine() > base && i < 2000; i++ {
			if i < 100 {
				runtime.Gosched()
			} else {
				time.Sleep(time.Millisecond)
			}
		}
		if o.Leak = runtime.NumGoroutine() - base; o.Leak > 0 {
			base = runtime.NumGoroutine()
		}
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
	w.Close()
}
