module verif/harness

go 1.26.0

require github.com/bluekeyes/go-gitdiff v0.0.0

replace github.com/bluekeyes/go-gitdiff => /repo
