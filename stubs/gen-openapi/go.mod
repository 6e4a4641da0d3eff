module github.com/webrpc/gen-openapi

go 1.16
