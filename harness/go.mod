module verif/harness

go 1.23

require (
	github.com/dlclark/regexp2 v1.4.0
	github.com/nlpodyssey/gotokenizers v0.0.0
)

replace github.com/nlpodyssey/gotokenizers => /repo
