module verifharness

go 1.26

require github.com/ixtendio/gofre v0.0.0

replace github.com/ixtendio/gofre => /repo
