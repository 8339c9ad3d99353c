module finmodverif

go 1.16

require (
	github.com/vanclief/ez v1.1.3
	github.com/vanclief/finmod v0.0.0
)

replace github.com/vanclief/finmod => /repo
