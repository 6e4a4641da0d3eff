module github.com/webrpc/gen-kotlin

go 1.16
