module verifmc

go 1.18

require github.com/patrickbr/gtfstidy v0.0.0

replace github.com/patrickbr/gtfstidy => /repo

require (
	github.com/klauspost/compress v1.17.7 // indirect
	github.com/patrickbr/gtfsparser v0.0.0-20250109120112-0f616022f79d
	github.com/patrickbr/gtfswriter v0.0.0-20240919073412-98e3602c6cd8
	github.com/valyala/fastjson v1.6.4 // indirect
	golang.org/x/exp v0.0.0-20240314144324-c7f7c6466f7f // indirect
)
