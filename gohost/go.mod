module vpgohost

go 1.24

require github.com/Toyz/concordia v0.0.0

replace github.com/Toyz/concordia => /repo
