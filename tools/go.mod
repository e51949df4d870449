module vtools

go 1.24
