module ocverif

go 1.19

require (
	github.com/cloudprivacylabs/lpg/v2 v2.0.0
	github.com/cloudprivacylabs/opencypher v0.0.0
)

require (
	github.com/antlr/antlr4/runtime/Go/antlr v0.0.0-20210803070921-b358b509191a // indirect
	github.com/emirpasic/gods v1.18.1 // indirect
	github.com/nleeper/goment v1.4.4 // indirect
	github.com/stretchr/testify v1.7.0 // indirect
	github.com/tkuchiki/go-timezone v0.2.0 // indirect
)

replace github.com/cloudprivacylabs/opencypher => /repo
