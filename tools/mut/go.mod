module mut
go 1.24
