//go:build instr

package main

import "github.com/CrowdStrike/gql/vmc"

const instrumented = true

func setPointHook(f func()) { vmc.PointHook = f }
