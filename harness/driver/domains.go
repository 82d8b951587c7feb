package main

type opener func(e *env, op M) M

var domains = map[string]opener{}

// afterOpen reattaches what a domain built on the store after a reopen
var afterOpen []func(e *env) error

func openDomain(e *env, d string, op M) M { return domains[d](e, op) }


