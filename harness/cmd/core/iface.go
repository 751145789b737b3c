package main

import "github.com/protolambda/zssz/types"

type signed = types.SignedSSZ
