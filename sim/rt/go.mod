module gosim

go 1.24
