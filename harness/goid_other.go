//go:build !amd64

package main

func goid() uintptr { return 0 }

const haveGoid = false
