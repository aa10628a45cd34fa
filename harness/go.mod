module vharness

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/jayloop/radix v0.0.0
)

require (
	github.com/golang/snappy v0.0.2 // indirect
	github.com/jayloop/table v0.0.0-20201002104108-cd6c88e54e20 // indirect
)

replace github.com/jayloop/radix => /repo
