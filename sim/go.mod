module verifsim

go 1.25

require (
	github.com/fogleman/gg v1.3.0
	github.com/lafriks/go-svg v0.0.0-00010101000000-000000000000
	github.com/llgcode/draw2d v0.0.0-20240627062922-0ed1ff131195
	github.com/srwiley/rasterx v0.0.0-20220730225603-2ab79fcdd4ef
	golang.org/x/image v0.19.0
	golang.org/x/net v0.28.0
)

require (
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0
	golang.org/x/text v0.17.0 // indirect
)

replace github.com/lafriks/go-svg => /repo
