module github.com/fanliao/go-concurrentMap

go 1.14
