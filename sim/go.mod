module verifsim

go 1.13
