module verif/engine

go 1.25.0

require golang.org/x/tools v0.46.0

require (
	golang.org/x/mod v0.37.0 // indirect
	golang.org/x/sync v0.21.0 // indirect
)
