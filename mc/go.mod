module verif/mc

go 1.25.0

require (
	github.com/abema/go-mp4 v1.7.1
	github.com/asticode/go-astits v1.15.0
	github.com/bluenviron/mediacommon/v2 v2.0.0
)

require (
	github.com/asticode/go-astikit v0.30.0 // indirect
	github.com/google/uuid v1.3.0 // indirect
)

replace github.com/bluenviron/mediacommon/v2 => /repo
