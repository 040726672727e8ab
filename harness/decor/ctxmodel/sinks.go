package main

func setup(d Dec) { d.Reset() }
