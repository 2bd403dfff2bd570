module verif/harness

go 1.24.3

require (
	github.com/dhamidi/texted v0.0.0
	github.com/mark3labs/mcp-go v0.31.0
)

require (
	github.com/google/uuid v1.6.0 // indirect
	github.com/spf13/cast v1.7.1 // indirect
	github.com/yosida95/uritemplate/v3 v3.0.2 // indirect
)

replace github.com/dhamidi/texted => /repo
