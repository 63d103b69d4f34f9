module simctl

go 1.24
