module verif/tools/mutate

go 1.25.0
