package typescript

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
