package main

import (
	"os"

	e "verifmc/engine"
)

func main() {
	if t := os.Getenv("MC_TASK"); t != "" {
		c14Child(t)
	}
	e.Main(map[string]func(*e.Run){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "L01": l01, "L02": l02, "L03": l03, "L04": l04, "L05": l05, "L06": l06, "L07": l07, "L08": l08, "L09": l09, "L10": l10, "L11": l11, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19,
	})
}
