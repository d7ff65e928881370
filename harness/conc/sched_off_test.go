//go:build !verifsched

package conc

const schedBuild = false
