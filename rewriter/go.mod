module rewriter

go 1.22
