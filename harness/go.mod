module github.com/itstarsun/go-thrift/xverif

go 1.24.0

require github.com/itstarsun/go-thrift v0.0.0

replace github.com/itstarsun/go-thrift => /repo
