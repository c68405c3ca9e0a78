module verifsim/sim

go 1.23

require (
	github.com/mjarkk/yarql v0.0.0
	github.com/valyala/fastjson v1.6.3
)

replace github.com/mjarkk/yarql => /repo
