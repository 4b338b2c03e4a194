module rewriter

go 1.24
