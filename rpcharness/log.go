package main

import (
	"io"
	"log"
)

var nolog = log.New(io.Discard, "", 0)
