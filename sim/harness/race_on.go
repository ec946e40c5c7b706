//go:build go1.22 && race

package main

const raceBuild = true
