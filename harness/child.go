package main

import "fmt"

var children = map[string]func(args []string) int{}

func runChild(name string, args []string) int {
	f, ok := children[name]
	if !ok {
		fmt.Println("unknown child", name)
		return 3
	}
	return f(args)
}
