module github.com/webrpc/gen-dart

go 1.16
