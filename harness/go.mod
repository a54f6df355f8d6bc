module verif/harness

go 1.21

require github.com/zyedidia/gpeg v0.0.0

replace github.com/zyedidia/gpeg => /repo
