module github.com/lestrrat-go/helium/verif

go 1.22

require github.com/lestrrat-go/helium v0.0.0

require (
	github.com/davecgh/go-spew v1.1.0 // indirect
	github.com/lestrrat-go/pdebug v0.0.0-20160817063333-2e6eaaa5717f // indirect
	github.com/lestrrat-go/strcursor v0.0.0-20160229112842-cbe932022364 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/text v0.0.0-20161027091323-a8b38433e35b // indirect
)

replace github.com/lestrrat-go/helium => /repo
