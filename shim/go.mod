module vshim

go 1.21
