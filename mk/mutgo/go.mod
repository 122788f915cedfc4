module mutgo
go 1.23
