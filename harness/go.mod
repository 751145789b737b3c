module verif/harness

go 1.24

require github.com/protolambda/zssz v0.0.0

replace github.com/protolambda/zssz => /repo
