package main

import "go/token"

type tokenT = token.Token

const (
	tokenEQL = token.EQL
	tokenADD = token.ADD
	tokenSUB = token.SUB
	tokenMUL = token.MUL
)
