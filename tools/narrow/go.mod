module verif/tools/narrow

go 1.25.0
