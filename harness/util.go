package main

import "strconv"

func itoa(i int) string { return strconv.Itoa(i) }
