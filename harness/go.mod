module verif/h3

go 1.13

require github.com/hpinc/go3mf v0.0.0

replace github.com/hpinc/go3mf => /repo
