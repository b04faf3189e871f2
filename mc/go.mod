module verifmc

go 1.23

require github.com/myyrakle/gost v0.0.0

replace github.com/myyrakle/gost => /repo
