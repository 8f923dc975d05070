module verif/tool

go 1.24
