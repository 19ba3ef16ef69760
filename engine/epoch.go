package main

import "sync/atomic"

var solverEpochCtr atomic.Uint32

func nextSolverEpoch() uint32 { return solverEpochCtr.Add(1) }
