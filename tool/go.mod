module verif/tool

go 1.25
