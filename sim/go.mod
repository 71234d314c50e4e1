module verifsim

go 1.25

require github.com/phoreproject/bls v0.0.0

replace github.com/phoreproject/bls => /repo
