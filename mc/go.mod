module verifmc

go 1.23

require github.com/ecoshub/jin v0.0.0

replace github.com/ecoshub/jin => /repo
