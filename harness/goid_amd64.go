package main

func goid() uintptr

const haveGoid = true
