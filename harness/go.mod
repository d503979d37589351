module verif.local/harness

go 1.25

require (
	github.com/go-stomp/stomp/v3 v3.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/go-stomp/stomp/v3 => /repo
