module vharness

go 1.15

require (
	github.com/golang/geo v0.0.0-20210211234256-740aa86cb551
	github.com/hzw456/go-geo v0.0.0
	github.com/mmcloughlin/geohash v0.10.0
)

replace github.com/hzw456/go-geo => /repo
