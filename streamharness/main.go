// Command verifstream drives the generated Go client and server of the
// repository's streaming example through planned streams, over TCP, and logs
// everything a user of them can observe: what reaches the server, the hooks and
// the handler, what the handler writes, what the caller reads and how the
// stream ends for either of them.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	proto "github.com/webrpc/webrpc/verifstream/proto"
)

// what a hook or handler is to do
type plan struct {
	Kind string `json:"kind"` // ok, err, plain, wrapped, panic
	Code int    `json:"code"`
	Text string `json:"text"`
}

type wireLine struct {
	K   string `json:"k"` // msg, err, junk, blank, half
	V   string `json:"v"`
	Err rec    `json:"err"`
}

type call struct {
	Raw      bool            `json:"raw"`
	Verb     string          `json:"verb"`
	URL      string          `json:"url"`
	CTs      []string        `json:"cts"`
	Body     string          `json:"body"`
	Pre      string          `json:"pre"`
	Net      string          `json:"net"`
	Mode     string          `json:"mode"` // wire: the answer is p.Wire; bad: an error that is none
	Args     json.RawMessage `json:"args"`
	Writers  [][]string      `json:"writers"`
	End      plan            `json:"endk"`
	Hook     plan            `json:"hook"`
	Repl     plan            `json:"repl"`
	Cut      string          `json:"cut"`
	Keep     int             `json:"keep"`
	Part     bool            `json:"part"`
	Wait     bool            `json:"wait"`
	How      string          `json:"how"` // "", cancel, deadline
	CancelAt int             `json:"cancelat"`
	Wire     []wireLine      `json:"wire"`
	Frag     bool            `json:"frag"`
	Pings    bool            `json:"pings"`
	Pace     int             `json:"pace"` // milliseconds a writer waits before it writes
}

type token struct {
	C int    `json:"c"`
	T string `json:"t"`
	W int    `json:"w"`
}

type kase struct {
	ID    int     `json:"id"`
	Calls []call  `json:"calls"`
	Sched []token `json:"sched"`
	Cfg   struct{ Hook, OnErr, Recover, Mount bool }
}

type rec map[string]any

type observation struct {
	ID    int    `json:"id"`
	St    string `json:"st"`
	Msg   string `json:"msg"`
	Leak  int    `json:"leak"`
	Both  bool   `json:"both"`
	Ev    []rec  `json:"ev"`
	Pos   []int  `json:"pos"`
	Chain []int  `json:"chain"`
	Ops   []int  `json:"ops"`
	S     rec    `json:"s"`
}

// an actor that takes its steps when it is told to
type actor struct {
	at, gate chan struct{}
}

func newActor() *actor { return &actor{make(chan struct{}), make(chan struct{})} }

type stream struct {
	caller, ender *actor
	writers       []*actor
	called        chan struct{} // the caller is done
	served        chan struct{} // the server is done with the request
	once          sync.Once
	cancel        func()
}

type runner struct {
	k    *kase
	mu   sync.Mutex
	ev   []rec
	open chan struct{}
	st   []*stream
}

func (r *runner) log(c int, e string, m rec) {
	if m == nil {
		m = rec{}
	}
	m["c"], m["e"] = c, e
	r.mu.Lock()
	r.ev = append(r.ev, m)
	r.mu.Unlock()
}

// wait for the schedule
func (r *runner) stop(a *actor) {
	if len(r.k.Sched) == 0 {
		return
	}
	select {
	case a.at <- struct{}{}:
	case <-r.open:
		return
	}
	select {
	case <-a.gate:
	case <-r.open:
	}
}

func idOf(h http.Header) int {
	v := h.Values("X-Call")
	if len(v) != 1 {
		return 0
	}
	n, _ := strconv.Atoi(v[0])
	return n
}

func canon(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "?" + string(b)
	}
	if _, err := d.Token(); err != io.EOF {
		return "?" + string(b)
	}
	return plainJSON(v)
}

func plainJSON(v any) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return "?" + err.Error()
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func toText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?" + err.Error()
	}
	return canon(b)
}

var all = []proto.WebRPCError{
	proto.ErrWebrpcEndpoint, proto.ErrWebrpcRequestFailed, proto.ErrWebrpcBadRoute, proto.ErrWebrpcBadMethod, proto.ErrWebrpcBadRequest, proto.ErrWebrpcBadResponse,
	proto.ErrWebrpcServerPanic, proto.ErrWebrpcInternalError, proto.ErrWebrpcClientAborted, proto.ErrWebrpcStreamLost, proto.ErrWebrpcStreamFinished, proto.ErrEmptyUsername,
}

func (p plan) err() error {
	named := func() proto.WebRPCError {
		for _, e := range all {
			if e.Code == p.Code {
				return e
			}
		}
		panic("no such error")
	}
	switch p.Kind {
	case "err":
		e := named()
		if p.Text != "" {
			e = e.WithCause(errors.New(p.Text))
		}
		return e
	case "plain":
		return errors.New(p.Text)
	case "wrapped":
		return fmt.Errorf("%s%w", p.Text, named())
	case "panic":
		panic(p.Text)
	}
	return nil
}

func errRec(e proto.WebRPCError) rec {
	return rec{"name": e.Name, "code": e.Code, "msg": e.Message, "status": e.HTTPStatus, "cause": e.Cause}
}

// the server's side

type impl struct{ r *runner }

func (s impl) SendMessage(ctx context.Context, username, text string) error {
	s.r.log(idOf(proto.RequestFromContext(ctx).Header), "handler", rec{"m": "SendMessage"})
	return nil
}

func (s impl) SubscribeMessages(ctx context.Context, username string, last *uint64, w proto.SubscribeMessagesStreamWriter) error {
	r := s.r
	c, path := 0, ""
	if req := proto.RequestFromContext(ctx); req != nil {
		c, path = idOf(req.Header), req.URL.Path
	}
	mm := ""
	if x, ok := proto.MethodCtx(ctx); ok {
		mm = x.Service() + "/" + x.Name()
	}
	a := toText(rec{"username": username, "lastMessageId": last})
	r.log(c, "handler", rec{"m": "SubscribeMessages", "args": a, "svc": proto.ServiceNameFromContext(ctx), "name": proto.MethodNameFromContext(ctx), "path": path, "meta": mm})
	if c < 1 || c > len(r.k.Calls) {
		panic("a request of no call")
	}
	p, st := r.k.Calls[c-1], r.st[c-1]
	var wg sync.WaitGroup
	for i := range p.Writers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, t := range p.Writers[i] {
				r.stop(st.writers[i])
				var m *proto.Message
				if err := json.Unmarshal([]byte(t), &m); err != nil {
					panic("plan: " + err.Error())
				}
				if p.Pace > 0 {
					time.Sleep(time.Duration(p.Pace) * time.Millisecond)
				}
				r.log(c, "write", rec{"w": i + 1, "v": t})
				err := w.Write(m)
				r.log(c, "wrote", rec{"w": i + 1, "ok": err == nil})
			}
			r.finish(st.writers[i])
		}()
	}
	wg.Wait()
	r.stop(st.ender)
	if p.Wait {
		<-ctx.Done()
		r.log(c, "gone", nil)
	}
	r.log(c, "ended", nil)
	return p.End.err()
}

// a writer that has nothing more to write
func (r *runner) finish(a *actor) {
	if len(r.k.Sched) > 0 {
		select {
		case a.at <- struct{}{}:
		case <-r.open:
		}
	}
}

func (r *runner) handler() http.Handler {
	o := &proto.Options{}
	if r.k.Cfg.Hook {
		o.OnRequest = func(w http.ResponseWriter, q *http.Request) error {
			c := idOf(q.Header)
			r.log(c, "hook", rec{"path": q.URL.Path})
			return r.k.Calls[c-1].Hook.err()
		}
	}
	if r.k.Cfg.OnErr {
		o.OnError = func(q *http.Request, e *proto.WebRPCError) {
			c := idOf(q.Header)
			r.log(c, "onerror", rec{"err": errRec(*e)})
			if p := r.k.Calls[c-1].Repl; p.Kind == "err" {
				*e = p.err().(proto.WebRPCError)
			}
		}
	}
	var h http.Handler = proto.NewChatServer(impl{r}, o)
	if r.k.Cfg.Mount {
		mux := http.NewServeMux()
		for _, m := range (proto.Server{Chat: impl{r}}).Methods(o) {
			mux.Handle(m.Path, m.Handler)
		}
		h = mux
	}
	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		c := idOf(q.Header)
		if c < 1 || c > len(r.k.Calls) {
			r.log(c, "request", rec{})
			return
		}
		defer r.st[c-1].once.Do(func() { close(r.st[c-1].served) })
		m := rec{"verb": q.Method, "path": q.URL.Path, "ct": strings.Join(q.Header.Values("Content-Type"), "|"), "accept": q.Header.Get("Accept"), "webrpc": q.Header.Get(proto.WebrpcHeader), "body": ""}
		if !r.k.Calls[c-1].Raw {
			b, err := io.ReadAll(q.Body)
			if err != nil {
				panic(err)
			}
			m["body"] = canon(b)
			q.Body = io.NopCloser(bytes.NewReader(b))
		}
		r.log(c, "request", m)
		if r.k.Cfg.Recover {
			defer func() { recover() }()
		}
		h.ServeHTTP(w, q)
	})
}

// the client's side

// an answer as it comes out of the network: in pieces, with blank lines in
// between, and with the end the plan wants
type answer struct {
	p     call
	real  io.Closer
	r     *bufio.Reader
	rnd   *rand.Rand
	begin bool // at the beginning of a line
	lines int  // lines with something in them
	some  bool // the line at hand has something in it
	cut   bool
	off   int // the bytes left until the cut
}

func (a *answer) Close() error { return a.real.Close() }

func (a *answer) end() error {
	switch a.p.Cut {
	case "lost":
		return io.ErrUnexpectedEOF
	case "reset":
		return errors.New("connection reset by peer")
	}
	return io.EOF
}

func (a *answer) Read(b []byte) (int, error) {
	if a.cut {
		return 0, a.end()
	}
	n, max := 0, len(b)
	if a.p.Frag && max > 1 {
		max = 1 + a.rnd.Intn(min(max, 40))
	}
	for n < max {
		if a.p.Cut != "" && a.lines == a.p.Keep && a.begin && !a.p.Part {
			a.cut = true
			if n > 0 {
				return n, nil
			}
			return 0, a.end()
		}
		if a.begin && a.p.Pings && a.rnd.Intn(3) == 0 && a.lines > 0 {
			b[n] = '\n'
			n++
			continue
		}
		if n > 0 && a.r.Buffered() == 0 {
			return n, nil
		}
		x, err := a.r.ReadByte()
		if err != nil {
			if n > 0 && a.rnd.Intn(2) == 0 {
				return n, nil
			}
			return n, err
		}
		b[n] = x
		n++
		if x == '\n' {
			if a.some {
				a.lines++
			}
			a.begin, a.some = true, false
			continue
		}
		a.begin, a.some = false, true
		if a.p.Cut != "" && a.lines == a.p.Keep && a.p.Part {
			if a.off == 0 {
				a.off = 1 + a.rnd.Intn(10)
			}
			if a.off--; a.off == 0 {
				a.cut = true
				return n, nil
			}
		}
	}
	return n, nil
}

type client struct {
	r   *runner
	url string
	cl  *http.Client
}

func (t client) Do(q *http.Request) (*http.Response, error) {
	c, _ := q.Context().Value(callKey{}).(int)
	p := t.r.k.Calls[c-1]
	t.r.log(c, "send", rec{"verb": q.Method, "url": strings.TrimPrefix(q.URL.String(), t.url)})
	if p.Net == "down" {
		return nil, errors.New("connection refused")
	}
	rnd := rand.New(rand.NewSource(int64(t.r.k.ID*64 + c)))
	switch p.Mode {
	case "bad":
		return &http.Response{StatusCode: 502, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("<html>Bad Gateway</html>"))}, nil
	case "wire":
		var b strings.Builder
		for _, x := range p.Wire {
			switch x.K {
			case "msg":
				b.WriteString(`{"message":` + x.V + "}\n")
			case "err":
				e := rec{"error": x.Err["name"], "code": x.Err["code"], "msg": x.Err["msg"], "status": x.Err["status"]}
				if x.Err["cause"] != "" {
					e["cause"] = x.Err["cause"]
				}
				b.WriteString(plainJSON(rec{"webrpcError": e}) + "\n")
			case "blank":
				b.WriteString("\n")
			default:
				b.WriteString(x.V)
				if x.K == "junk" {
					b.WriteString("\n")
				}
			}
		}
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: &answer{p: p, real: io.NopCloser(nil), r: bufio.NewReader(strings.NewReader(b.String())), rnd: rnd, begin: true}}, nil
	}
	resp, err := t.cl.Do(q)
	if err != nil {
		return nil, err
	}
	if resp.StatusCode == 200 && !p.Raw {
		resp.Body = &answer{p: p, real: resp.Body, r: bufio.NewReader(resp.Body), rnd: rnd, begin: true}
	}
	return resp, nil
}

type callKey struct{}

// a context that ends on demand
type deadline struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func (d *deadline) Done() <-chan struct{} { return d.done }
func (d *deadline) Err() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.err
}
func (d *deadline) expire() {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.err == nil {
		d.err = context.DeadlineExceeded
		close(d.done)
	}
}

// the error a caller is given
func told(err error, how string) rec {
	var e proto.WebRPCError
	typed := true
	switch x := err.(type) {
	case proto.WebRPCError:
		e = x
	case *proto.WebRPCError:
		if typed = x != nil; typed {
			e = *x
		}
	default:
		typed = false
		e.Cause = err.Error()
	}
	m := errRec(e)
	want := context.Canceled
	if how == "deadline" {
		want = context.DeadlineExceeded
	}
	m["typed"], m["ctx"] = typed, errors.Is(err, want)
	is := []int{}
	for _, x := range all {
		if errors.Is(err, x) {
			is = append(is, x.Code)
		}
	}
	m["is"] = is
	return m
}

func (r *runner) call(c int, base string, hc client, api proto.ChatClient) {
	p, st := r.k.Calls[c-1], r.st[c-1]
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), callKey{}, c))
	defer cancel()
	st.cancel = cancel
	if p.How == "deadline" {
		d := &deadline{Context: ctx, done: make(chan struct{})}
		ctx, st.cancel = d, d.expire
		defer d.expire()
	}
	defer r.log(c, "done", nil)
	if p.Pre == "cancel" {
		st.cancel()
	}
	if p.Raw {
		r.raw(ctx, c, base, hc)
		return
	}
	ctx, err := proto.WithHTTPRequestHeaders(ctx, http.Header{"X-Call": {strconv.Itoa(c)}})
	if err != nil {
		panic(err)
	}
	var in struct {
		Username      string
		LastMessageId *uint64
	}
	if err := json.Unmarshal(p.Args, &in); err != nil {
		panic("plan: " + err.Error())
	}
	s, err := api.SubscribeMessages(ctx, in.Username, in.LastMessageId)
	if err != nil {
		r.log(c, "open", rec{"ok": false, "err": told(err, p.How)})
		return
	}
	r.log(c, "open", rec{"ok": true})
	total := 0
	for _, w := range p.Writers {
		total += len(w)
	}
	for n := 0; ; n++ {
		r.stop(st.caller)
		if len(r.k.Sched) == 0 && p.How != "" && n == p.CancelAt {
			if p.Wait && n == total && p.Mode == "" && p.Cut == "" { // nothing is left to be read
				go func() {
					time.Sleep(time.Duration(c) * time.Millisecond)
					r.log(c, "cancel", nil)
					st.cancel()
				}()
			} else {
				r.log(c, "cancel", nil)
				st.cancel()
			}
		}
		m, err := s.Read()
		if err != nil {
			r.log(c, "stop", rec{"err": told(err, p.How)})
			break
		}
		r.log(c, "read", rec{"v": toText(m)})
	}
	for range 2 {
		_, err := s.Read()
		r.log(c, "again", rec{"ok": err == nil})
	}
}

func (r *runner) raw(ctx context.Context, c int, base string, hc client) {
	p := r.k.Calls[c-1]
	q, err := http.NewRequestWithContext(ctx, p.Verb, base+p.URL, strings.NewReader(p.Body))
	if err != nil {
		panic("plan: " + err.Error())
	}
	q.Header.Set("X-Call", strconv.Itoa(c))
	for _, x := range p.CTs {
		q.Header.Add("Content-Type", x)
	}
	resp, err := hc.Do(q)
	if err != nil {
		r.log(c, "reply", rec{"status": 0})
		return
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		r.log(c, "reply", rec{"status": -1})
		return
	}
	m := rec{"status": resp.StatusCode, "ct": strings.Join(resp.Header.Values("Content-Type"), "|"), "allow": strings.Join(resp.Header.Values("Allow"), "|"), "webrpc": strings.Join(resp.Header.Values(proto.WebrpcHeader), "|"),
		"cache": strings.Join(resp.Header.Values("Cache-Control"), "|"), "sniff": strings.Join(resp.Header.Values("X-Content-Type-Options"), "|"), "first": strings.HasPrefix(string(b), "\n"), "body": rec{"none": true}}
	lines, errs := []string{}, []rec{}
	if resp.StatusCode == 200 {
		for i, t := range strings.SplitAfter(string(b), "\n") {
			if t == "\n" || (t == "" && i > 0) {
				continue
			}
			var x struct {
				Message json.RawMessage    `json:"message"`
				Err     *proto.WebRPCError `json:"webrpcError"`
			}
			d := json.NewDecoder(strings.NewReader(t))
			d.DisallowUnknownFields()
			err := d.Decode(&x)
			switch {
			case err != nil || !strings.HasSuffix(t, "\n") || (x.Err != nil && x.Message != nil):
				lines = append(lines, "?"+t)
			case x.Err != nil:
				errs = append(errs, errRec(*x.Err))
			case x.Message == nil: // null
				lines = append(lines, "null")
			default:
				if len(errs) > 0 {
					lines = append(lines, "?after the end: "+t)
				}
				lines = append(lines, canon(x.Message))
			}
		}
	} else if p.Verb != "HEAD" {
		var e proto.WebRPCError
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		if err := d.Decode(&e); err == nil {
			m["body"] = errRec(e)
		} else {
			m["body"] = rec{"bad": string(b)}
		}
	}
	m["lines"], m["errs"] = lines, errs
	r.log(c, "reply", m)
}

// ------------------------------------------------------------------ running

func run(k *kase) (o *observation) {
	o = &observation{ID: k.ID, St: "ok", S: rec{}, Pos: []int{}, Chain: []int{}, Ops: []int{}}
	r := &runner{k: k, open: make(chan struct{})}
	for _, p := range k.Calls {
		s := &stream{caller: newActor(), ender: newActor(), called: make(chan struct{}), served: make(chan struct{}), cancel: func() {}}
		for range p.Writers {
			s.writers = append(s.writers, newActor())
		}
		r.st = append(r.st, s)
	}
	srv := httptest.NewUnstartedServer(r.handler())
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	tr := &http.Transport{DisableKeepAlives: k.ID%2 == 0}
	defer tr.CloseIdleConnections()
	hc := client{r, srv.URL, &http.Client{Transport: tr}}
	api := proto.NewClient(srv.URL, hc).Chat
	begun := make([]bool, len(k.Calls))
	start := func(c int) {
		begun[c-1] = true
		go func() {
			defer close(r.st[c-1].called)
			r.call(c, srv.URL, hc, api)
		}()
	}
	for _, t := range k.Sched {
		s := r.st[t.C-1]
		switch t.T {
		case "S":
			start(t.C)
			select {
			case <-s.called:
				continue
			case <-s.caller.at:
			}
			if p := k.Calls[t.C-1]; p.Mode == "" { // the stream is open
				for _, w := range s.writers {
					<-w.at
				}
				if len(s.writers) == 0 || total(p) == 0 {
					<-s.ender.at
				}
			}
		case "W":
			w := s.writers[t.W-1]
			w.gate <- struct{}{}
			<-w.at
		case "E":
			if total(k.Calls[t.C-1]) > 0 {
				<-s.ender.at
			}
			s.ender.gate <- struct{}{}
			if !k.Calls[t.C-1].Wait {
				<-s.served
			}
		case "R":
			select {
			case s.caller.gate <- struct{}{}:
			case <-s.called:
				continue
			}
			select {
			case <-s.called:
			case <-s.caller.at:
			}
		case "C":
			r.log(t.C, "cancel", nil)
			s.cancel()
		}
	}
	close(r.open)
	for c := range k.Calls {
		if !begun[c] {
			start(c + 1)
		}
	}
	for c := range k.Calls {
		<-r.st[c].called
		// a request that arrived is served to its end
		if r.arrived(c + 1) {
			<-r.st[c].served
		}
	}
	r.mu.Lock()
	o.Ev = r.ev
	r.mu.Unlock()
	return o
}

func total(p call) int {
	n := 0
	for _, w := range p.Writers {
		n += len(w)
	}
	return n
}

func (r *runner) arrived(c int) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range r.ev {
		if e["c"] == c && e["e"] == "request" {
			return true
		}
	}
	return false
}

func main() {
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	from := flag.Int("from", 0, "")
	limit := flag.Int("timeout", 20, "")
	flag.Parse()
	f, err := os.Open(*in)
	if err != nil {
		panic(err)
	}
	w, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	base := runtime.NumGoroutine()
	for n := 0; sc.Scan(); n++ {
		if n < *from {
			continue
		}
		var k kase
		if err := json.Unmarshal(sc.Bytes(), &k); err != nil {
			panic(err)
		}
		fmt.Fprintf(os.Stderr, "case %d\n", n)
		timer := time.AfterFunc(time.Duration(*limit)*time.Second, func() {
			fmt.Fprintln(os.Stderr, "verif: timeout")
			os.Exit(99)
		})
		o := run(&k)
		timer.Stop()
		for i := 0; runtime.NumGoroutine() > base && i < 2000; i++ {
			if i < 100 {
				runtime.Gosched()
			} else {
				time.Sleep(time.Millisecond)
			}
		}
		if o.Leak = runtime.NumGoroutine() - base; o.Leak > 0 {
			base = runtime.NumGoroutine()
		}
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
	w.Close()
}
