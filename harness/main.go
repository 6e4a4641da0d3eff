// Command verifharness runs schema cases through webrpc's public API and logs
// what a user can observe of the outcome.  It is compiled into the webrpc
// module with `go build -overlay` (see /verif/run.py), reads one JSON case per
// line and writes one JSON observation per line.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

type file struct {
	P string `json:"p"`
	B string `json:"b"` // base64
}

type op struct {
	Op     string      `json:"op"`
	Names  []string    `json:"names"`
	Anns   [][2]string `json:"anns"`
	Compat bool        `json:"compat"`
	Exprs  []string    `json:"exprs"`
}

type kase struct {
	ID    int    `json:"id"`
	Kind  string `json:"kind"`
	Files []file `json:"files"`
	Root  string `json:"root"`
	JSON  string `json:"json"` // base64
	Cwd   string `json:"cwd"`
	NoCwd bool   `json:"nocwd"`
	Dir   string `json:"-"` // where the files go, if not in a new place
	Ops   []op   `json:"ops"`
	Subs  []kase `json:"subs"`
	Steps []step `json:"steps"`
	Conc  bool   `json:"conc"`
	Runs  int    `json:"runs"`
	Procs int    `json:"procs"`

	Src  string      `json:"src"`  // what kind of schema a template is given
	Tmpl string      `json:"tmpl"` // the template
	Opts [][2]string `json:"opts"`
}

type obs struct {
	ID    int    `json:"id"`
	St    string `json:"st"` // ok, syn, err
	Both  bool   `json:"both"`
	Pos   []any  `json:"pos"`
	Chain []any  `json:"chain"`
	S     any    `json:"s"`
	Ops   []any  `json:"ops"`
	Leak  int    `json:"leak"`
	Msg   string `json:"msg"`
	Subs  []any  `json:"subs"`
	Out   string `json:"out"`
}

// others runs further kinds of cases
var others = map[string]func(*kase, *obs){}

func b64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

var synRe = regexp.MustCompile(`^(\d+):(\d+): error near ("(?:[^"\\]|\\.)*"): `)

func classify(err error) (st string, pos []any, chain []any) {
	msg := err.Error()
	chain = []any{}
	pos = []any{}
	const mark = "\nstack trace:\n  - "
	if i := strings.LastIndex(msg, mark); i >= 0 {
		for _, l := range strings.Split(msg[i+len(mark):], "\n  - ") {
			chain = append(chain, l)
		}
	}
	if m := synRe.FindStringSubmatch(msg); m != nil {
		line, _ := strconv.Atoi(m[1])
		col, _ := strconv.Atoi(m[2])
		txt, err := strconv.Unquote(m[3])
		if err == nil {
			return "syn", []any{line, col, txt}, chain
		}
	}
	return "err", pos, chain
}

// ---- the abstract view of a schema ----

type viewer struct{ types []*schema.Type }

func (v viewer) ref(kind, name string, t *schema.Type) string {
	ix := 0
	for i, x := range v.types {
		if x == t && t != nil {
			ix = i + 1
		}
	}
	if t != nil && (t.Kind != kind || t.Name != name) {
		return fmt.Sprintf("mismatch(%s,%s):%s:%s:%d", kind, name, t.Kind, t.Name, ix)
	}
	return fmt.Sprintf("%s:%s:%d", kind, name, ix)
}

func (v viewer) flat(t *schema.VarType) []any {
	if t == nil {
		return []any{"nil"}
	}
	set := 0
	for _, b := range []bool{t.List != nil, t.Map != nil, t.Struct != nil, t.Enum != nil, t.Alias != nil} {
		if b {
			set++
		}
	}
	switch {
	case set > 1:
		return []any{"ambiguous"}
	case t.Type == schema.T_List && t.List != nil:
		return append([]any{"list"}, v.flat(t.List.Elem)...)
	case t.Type == schema.T_Map && t.Map != nil:
		k := v.flat(t.Map.Key)
		return append(append([]any{"map"}, k...), v.flat(t.Map.Value)...)
	case t.Type == schema.T_Struct && t.Struct != nil:
		return []any{v.ref("struct", t.Struct.Name, t.Struct.Type)}
	case t.Type == schema.T_Enum && t.Enum != nil:
		return []any{v.ref("enum", t.Enum.Name, t.Enum.Type)}
	case t.Type == schema.T_Alias && t.Alias != nil:
		return []any{v.ref("alias", t.Alias.Name, t.Alias.Type)}
	case set == 0 && t.Type > schema.T_Unknown && t.Type < schema.T_List:
		return []any{"core:" + t.Type.String()}
	}
	return []any{fmt.Sprintf("unresolved:%d", int(t.Type))}
}

// subexpressions must agree with the structure, too
func (v viewer) exprs(t *schema.VarType) string {
	if t == nil {
		return "nil"
	}
	switch {
	case t.List != nil:
		if "[]"+v.exprs(t.List.Elem) != t.Expr {
			return t.Expr + " != list of " + v.exprs(t.List.Elem)
		}
	case t.Map != nil:
		if "map<"+v.exprs(t.Map.Key)+","+v.exprs(t.Map.Value)+">" != t.Expr {
			return t.Expr + " != map of " + v.exprs(t.Map.Key) + " and " + v.exprs(t.Map.Value)
		}
	}
	return t.Expr
}

type M = map[string]any

func (v viewer) vt(t *schema.VarType) M {
	if t == nil {
		return M{"flat": []any{}, "expr": ""}
	}
	return M{"flat": v.flat(t), "expr": v.exprs(t)}
}

func strs(s []string) []any {
	r := []any{}
	for _, x := range s {
		r = append(r, x)
	}
	return r
}

func metas(ms []schema.TypeFieldMeta) []any {
	r := []any{}
	for _, m := range ms {
		keys := []string{}
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		g := []any{}
		for _, k := range keys {
			if s, ok := m[k].(string); ok {
				g = append(g, []any{k, true, s})
			} else {
				b, _ := json.Marshal(m[k])
				g = append(g, []any{k, false, string(b)})
			}
		}
		r = append(r, g)
	}
	return r
}

func (v viewer) field(f *schema.TypeField) M {
	return M{"name": f.Name, "type": v.vt(f.Type), "opt": f.Optional, "val": f.Value, "meta": metas(f.Meta), "com": strs(f.Comments)}
}

func (v viewer) typ(t *schema.Type) M {
	fs := []any{}
	for _, f := range t.Fields {
		if f == nil {
			fs = append(fs, M{"name": "null"})
			continue
		}
		fs = append(fs, v.field(f))
	}
	return M{"kind": t.Kind, "name": t.Name, "type": v.vt(t.Type), "fields": fs, "meta": metas(t.Meta), "com": strs(t.Comments)}
}

func (v viewer) args(as []*schema.MethodArgument) []any {
	r := []any{}
	for _, a := range as {
		r = append(r, M{"name": a.Name, "type": v.vt(a.Type), "opt": a.Optional})
	}
	return r
}

func (v viewer) method(m *schema.Method) M {
	keys := []string{}
	for k := range m.Annotations {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	anns := []any{}
	for _, k := range keys {
		a := m.Annotations[k]
		if a == nil {
			anns = append(anns, []any{k, "nil", ""})
			continue
		}
		anns = append(anns, []any{k, a.AnnotationType, a.Value})
	}
	return M{"name": m.Name, "ann": anns, "com": strs(m.Comments), "suc": m.Succinct, "sin": m.StreamInput, "sout": m.StreamOutput,
		"ins": v.args(m.Inputs), "outs": v.args(m.Outputs), "errs": strs(m.Errors)}
}

func (v viewer) view(s *schema.WebRPCSchema) M {
	ts, es, ss := []any{}, []any{}, []any{}
	for _, t := range s.Types {
		ts = append(ts, v.typ(t))
	}
	for _, e := range s.Errors {
		es = append(es, M{"code": strconv.Itoa(e.Code), "name": e.Name, "msg": e.Message, "http": strconv.Itoa(e.HTTPStatus)})
	}
	for _, x := range s.Services {
		ms := []any{}
		for _, m := range x.Methods {
			ms = append(ms, v.method(m))
		}
		ss = append(ss, M{"name": x.Name, "com": strs(x.Comments), "methods": ms})
	}
	return M{"webrpc": s.WebrpcVersion, "name": s.SchemaName, "version": s.SchemaVersion, "basepath": s.BasePath,
		"types": ts, "errors": es, "services": ss}
}

func view(s *schema.WebRPCSchema) M { return viewer{s.Types}.view(s) }

// ---- running cases ----

// reopen parses the JSON export of a schema: for a schema from a file, written
// to a file of its own
func reopen(k *kase, text string) (*schema.WebRPCSchema, error) {
	if k.Kind != "file" {
		return schema.ParseSchemaJSON([]byte(text))
	}
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "export.json")
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
	return webrpc.ParseSchemaFile(p)
}

func parse(k *kase) (*schema.WebRPCSchema, error) {
	switch k.Kind {
	case "ridl":
		fsys := fstest.MapFS{}
		for _, f := range k.Files {
			fsys[f.P] = &fstest.MapFile{Data: b64(f.B)}
		}
		return ridl.NewParser(fsys, "/", k.Root).Parse()
	case "json":
		return schema.ParseSchemaJSON(b64(k.JSON))
	case "file":
		dir := k.Dir
		if dir == "" {
			tmp, err := os.MkdirTemp("", "verif")
			if err != nil {
				panic(err)
			}
			dir, _ = filepath.EvalSymlinks(tmp)
		} else if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for _, f := range k.Files {
			p := filepath.Join(dir, f.P)
			if strings.HasSuffix(f.P, "/") {
				os.MkdirAll(p, 0o755)
				continue
			}
			os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, b64(f.B), 0o644); err != nil {
				panic(err)
			}
		}
		if !k.NoCwd {
			old, _ := os.Getwd()
			defer os.Chdir(old)
		}
		if k.NoCwd {
			// the working directory is shared by all goroutines
		} else if err := os.Chdir(filepath.Join(dir, k.Cwd)); err != nil {
			panic(err)
		}
		s, perr := webrpc.ParseSchemaFile(strings.ReplaceAll(k.Root, "{dir}", dir))
		if perr != nil {
			perr = fmt.Errorf("%s", strings.ReplaceAll(perr.Error(), dir[1:], "D"))
		}
		return s, perr
	}
	panic("kind " + k.Kind)
}

func annMap(a [][2]string) map[string]string {
	m := map[string]string{}
	for _, p := range a {
		m[p[0]] = p[1]
	}
	return m
}

func bigints(m map[string][]any) []any {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r := []any{}
	for _, k := range keys {
		l := []any{}
		for _, e := range m[k] {
			switch x := e.(type) {
			case string:
				l = append(l, []any{x})
			case [2]string:
				l = append(l, []any{x[0], x[1]})
			default:
				l = append(l, []any{fmt.Sprintf("%T", e)})
			}
		}
		r = append(r, []any{k, l})
	}
	return r
}

func export(k *kase, s *schema.WebRPCSchema) M {
	r := M{"ok": false, "same": false, "hash": false, "again": false, "why": "", "text": ""}
	j1, err := s.ToJSON()
	if err != nil {
		r["why"] = "ToJSON: " + err.Error()
		return r
	}
	j1b, _ := s.ToJSON()
	h1, err := s.SchemaHash()
	if err != nil {
		r["why"] = "SchemaHash: " + err.Error()
		return r
	}
	h1b, _ := s.SchemaHash()
	r["again"] = j1 == j1b && h1 == h1b
	r["text"] = j1
	r["hashtext"] = h1
	s2, err := reopen(k, j1)
	if err != nil {
		r["why"] = "reparse: " + err.Error()
		return r
	}
	r["ok"] = true
	j2, err := s2.ToJSON()
	if err != nil {
		r["why"] = "ToJSON 2: " + err.Error()
		return r
	}
	h2, _ := s2.SchemaHash()
	r["same"] = j1 == j2
	r["hash"] = h1 == h2
	r["s"] = view(s2)
	return r
}

func run(k *kase) *obs {
	o := &obs{ID: k.ID, Pos: []any{}, Chain: []any{}, Ops: []any{}, S: M{}, Subs: []any{}}
	if k.Kind == "hist" {
		runHist(k, o)
		return o
	}
	if f := others[k.Kind]; f != nil {
		f(k, o)
		return o
	}
	s, err := parse(k)
	if err != nil {
		o.St, o.Pos, o.Chain = classify(err)
		o.Msg = err.Error()
		o.Both = s != nil && k.Kind == "ridl"
		return o
	}
	if s == nil {
		o.St = "err"
		o.Both = true
		return o
	}
	o.St = "ok"
	v := viewer{append([]*schema.Type{}, s.Types...)}
	o.S = v.view(s)
	for i := range k.Ops {
		var r any
		s, r = apply(k, v, s, &k.Ops[i])
		o.Ops = append(o.Ops, r)
	}
	return o
}

// apply runs an operation on a schema and tells what is seen of the result
func apply(k *kase, v viewer, s *schema.WebRPCSchema, p *op) (*schema.WebRPCSchema, any) {
	switch p.Op {
	case "export":
		return s, export(k, s)
	case "services":
		s = schema.MatchServices(s, p.Names)
	case "match":
		s = schema.MatchMethodsWithAnnotations(s, annMap(p.Anns))
	case "ignore":
		s = schema.IgnoreMethodsWithAnnotations(s, annMap(p.Anns))
	case "shake":
		s = schema.MethodTreeShake(s, p.Names)
	case "bigint":
		before, _ := s.ToJSON()
		r := M{"uses": schema.SchemaUsesBigInts(s), "by": bigints(schema.SchemaBigIntFieldsByType(s)), "compat": bigints(schema.SchemaBigIntFieldsByType(s, true))}
		after, _ := s.ToJSON()
		r["pure"] = before == after
		return s, r
	case "lookup":
		before, _ := s.ToJSON()
		r := v.lookup(s, p)
		after, _ := s.ToJSON()
		r["pure"] = before == after
		return s, r
	case "view":
	default:
		panic("op " + p.Op)
	}
	return s, v.view(s)
}

// lookup asks a schema for names and types
func (v viewer) lookup(s *schema.WebRPCSchema, p *op) M {
	ns, req, es := []any{}, []any{}, []any{}
	for _, q := range p.Names {
		t, sv := 0, 0
		if x := s.GetTypeByName(q); x != nil {
			t = -1
			for i, y := range v.types {
				if x == y {
					t = i + 1
				}
			}
		}
		if x := s.GetServiceByName(q); x != nil {
			sv = -1
			for i, y := range s.Services {
				if x == y {
					sv = i + 1
				}
			}
		}
		ns = append(ns, M{"type": t, "service": sv, "arg": schema.IsValidArgName(q), "up": schema.VarName(q).TitleUpcase(), "down": schema.VarName(q).TitleDowncase()})
	}
	for _, t := range s.Types {
		fs := []any{}
		for _, f := range t.RequiredFields() {
			fs = append(fs, f.Name)
		}
		req = append(req, fs)
	}
	for _, e := range p.Exprs {
		r := M{"ok": false, "flat": []any{}, "expr": "", "text": "", "json": false, "core": ""}
		var t schema.VarType
		err := schema.ParseVarTypeExpr(s, e, &t)
		u := schema.VarType{Expr: e}
		err2 := u.Parse(s)
		if (err == nil) != (err2 == nil) {
			r["expr"] = fmt.Sprint(err, " but ", err2)
		} else if err == nil {
			r["ok"], r["flat"], r["expr"], r["text"] = true, v.flat(&t), v.exprs(&u), t.String()
			if !reflect.DeepEqual(v.flat(&t), v.flat(&u)) {
				r["flat"] = []any{"differs"}
			}
		}
		q, _ := json.Marshal(e)
		var w schema.VarType
		if err := json.Unmarshal(q, &w); err == nil && w.Expr == e {
			var back string
			b, err := w.MarshalJSON()
			r["json"] = err == nil && json.Unmarshal(b, &back) == nil && back == e
		}
		var c schema.CoreType
		if json.Unmarshal(q, &c) == nil {
			b, err := json.Marshal(c)
			var back string
			if err == nil && json.Unmarshal(b, &back) == nil && back == c.String() {
				r["core"] = back
			} else {
				r["core"] = "unmarshals " + c.String() + ", marshals " + string(b)
			}
		}
		es = append(es, r)
	}
	return M{"names": ns, "required": req, "exprs": es}
}

// ---- histories: several documents parsed and operated on in one process ----

type step struct {
	W   int `json:"w"`   // the worker taking the step
	Doc int `json:"doc"` // parse this document (from 1), or 0: the operation
	Op  op  `json:"op"`
}

func texts(s *schema.WebRPCSchema, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	j, err := s.ToJSON()
	h, err2 := s.SchemaHash()
	return fmt.Sprint(j, err, h, err2)
}

// worker holds at most one schema
type worker struct {
	doc *kase
	s   *schema.WebRPCSchema
	v   viewer
}

func none() M {
	return M{"st": "none", "pos": []any{}, "chain": []any{}, "s": M{}, "op": M{}, "text": ""}
}

func (w *worker) step(k *kase, st *step) M {
	r := none()
	if st.Doc == 0 {
		if w.s == nil {
			return r
		}
		r["st"] = "op"
		w.s, r["op"] = apply(w.doc, w.v, w.s, &st.Op)
		return r
	}
	d := &k.Subs[st.Doc-1]
	s, err := parse(d)
	if err == nil && s == nil {
		r["st"] = "nothing"
		return r
	}
	r["text"] = texts(s, err)
	if err != nil {
		w.s = nil
		r["st"], r["pos"], r["chain"] = first3(classify(err))
		return r
	}
	w.doc, w.s, w.v = d, s, viewer{append([]*schema.Type{}, s.Types...)}
	r["st"] = "ok"
	r["s"] = w.v.view(s)
	return r
}

func first3(a string, b, c []any) (any, any, any) { return a, b, c }

// runHist takes the steps of a history in order, or (Conc) the steps of each
// worker in a goroutine of its own, Procs of them per worker, Runs times.
func runHist(k *kase, o *obs) {
	o.St = "ok"
	n := 0
	for i := range k.Steps {
		n = max(n, k.Steps[i].W)
	}
	if !k.Conc {
		// the files of all documents share one place, one after another
		dir, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		dir, _ = filepath.EvalSymlinks(dir)
		for i := range k.Subs {
			k.Subs[i].Dir = filepath.Join(dir, "d")
		}
		ws := make([]worker, n+1)
		for i := range k.Steps {
			st := &k.Steps[i]
			r := ws[st.W].step(k, st)
			r["same"] = true
			o.Subs = append(o.Subs, r)
		}
		return
	}
	out := make([]M, len(k.Steps))
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 1; w <= n; w++ {
		for g := 0; g < k.Procs; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for x := 0; x < k.Runs; x++ {
					var wk worker
					for i := range k.Steps {
						if k.Steps[i].W != w {
							continue
						}
						r := wk.step(k, &k.Steps[i])
						b, _ := json.Marshal(r)
						mu.Lock()
						if out[i] == nil {
							r["same"] = true
							r["raw"] = string(b)
							out[i] = r
						} else if out[i]["raw"] != string(b) {
							out[i]["same"] = false
							out[i]["diff"] = string(b)
						}
						mu.Unlock()
					}
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	for i := range out {
		delete(out[i], "raw")
		o.Subs = append(o.Subs, out[i])
	}
}

func main() {
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	from := flag.Int("from", 0, "")
	limit := flag.Int("timeout", 20, "")
	flag.Parse()
	f, err := os.Open(*in)
	if err != nil {
		panic(err)
	}
	w, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	base := runtime.NumGoroutine()
	for n := 0; sc.Scan(); n++ {
		if n < *from {
			continue
		}
		var k kase
		if err := json.Unmarshal(sc.Bytes(), &k); err != nil {
			panic(err)
		}
		fmt.Fprintf(os.Stderr, "case %d\n", n)
		timer := time.AfterFunc(time.Duration(*limit)*time.Second, func() {
			fmt.Fprintln(os.Stderr, "verif: timeout")
			os.Exit(99)
		})
		o := run(&k)
		timer.Stop()
		for i := 0; runtime.NumGoroutine() > base && i < 2000; i++ {
			if i < 100 {
				runtime.Gosched()
			} else {
				time.Sleep(time.Millisecond)
			}
		}
		if o.Leak = runtime.NumGoroutine() - base; o.Leak > 0 {
			base = runtime.NumGoroutine()
		}
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
	w.Close()
}
