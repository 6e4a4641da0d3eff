//go:build verifgen

package main

import (
	"os"
	"path/filepath"

	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
)

func init() {
	others["tmpl"] = runTmpl
	others["walk"] = runTmpl
}

// runTmpl generates from a template in a directory of its own
func runTmpl(k *kase, o *obs) {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n"}
	if k.Src != "" {
		src := *k
		src.Kind = k.Src
		var err error
		if s, err = parse(&src); err != nil {
			o.St, o.Msg = "err", err.Error()
			return
		}
	}
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "t.go.tmpl"), []byte(k.Tmpl), 0o644); err != nil {
		panic(err)
	}
	opts := map[string]any{}
	for _, p := range k.Opts {
		opts[p[0]] = p[1]
	}
	out, err := gen.Generate(s, dir, &gen.Config{TemplateOptions: opts})
	if err != nil {
		o.St, o.Msg = "err", err.Error()
		return
	}
	o.St, o.Out = "ok", out.Code
}
