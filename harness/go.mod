module verifharness

go 1.21
