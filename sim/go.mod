module vsim

go 1.24
