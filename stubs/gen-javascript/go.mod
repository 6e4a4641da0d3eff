module github.com/webrpc/gen-javascript

go 1.16
