module verifsched

go 1.13
