module verif

go 1.22.0

require github.com/Comcast/scte35-go v0.0.0

require (
	github.com/bamiaux/iobit v0.0.0-20170418073505-498159a04883 // indirect
	golang.org/x/text v0.22.0 // indirect
)

replace github.com/Comcast/scte35-go => /repo
