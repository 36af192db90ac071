module github.com/DiSiqueira/GoTree

go 1.23
