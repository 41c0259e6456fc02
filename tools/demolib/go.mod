module demo

go 1.27

require (
	github.com/emersion/go-mls v0.0.0
	golang.org/x/crypto v0.46.0
)

require (
	github.com/cloudflare/circl v1.6.1 // indirect
	golang.org/x/sys v0.39.0 // indirect
)

replace github.com/emersion/go-mls => /repo
