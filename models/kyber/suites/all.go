package suites

import "go.dedis.ch/kyber/v3/symgrp"

func init() { register(&symgrp.Suite{}) }
