module verifharness

go 1.24

require github.com/keyfuse/tokucore v0.0.0

replace github.com/keyfuse/tokucore => /repo
