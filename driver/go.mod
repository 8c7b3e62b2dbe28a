module verifdriver

go 1.24

require (
	github.com/rveen/ogdl v0.0.0
)

require golang.org/x/text v0.3.8 // indirect

replace github.com/rveen/ogdl => /repo
