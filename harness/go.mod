module verif/harness

go 1.22

require hbuf v0.0.0

replace hbuf => /repo
