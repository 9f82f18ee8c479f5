module verif.local/v

go 1.24
