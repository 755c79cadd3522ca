module verifharness

go 1.25

require (
	github.com/go-faker/faker/v4 v4.6.1
	github.com/ryanolee/go-chaff v0.0.0
	github.com/santhosh-tekuri/jsonschema/v6 v6.0.2
	github.com/thoas/go-funk v0.9.3
	golang.org/x/text v0.31.0
)

require golang.org/x/exp v0.0.0-20251125195548-87e1e737ad39 // indirect

replace github.com/ryanolee/go-chaff => /repo
