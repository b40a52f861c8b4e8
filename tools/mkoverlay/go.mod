module verif/mkoverlay

go 1.25
