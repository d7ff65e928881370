//go:build verifsched

package conc

const schedBuild = true
