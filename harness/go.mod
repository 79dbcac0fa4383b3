module amon

go 1.23

require (
	github.com/davecgh/go-spew v1.1.1
	github.com/golang/protobuf v1.3.5
	github.com/pkg/errors v0.9.1
	github.com/tendermint/go-amino v0.0.0
)

replace github.com/tendermint/go-amino => /repo
