package main

import (
	"sort"
	"vshim/vsched"
)

func main() {
	sort.Slice(props, func(i, j int) bool { return props[i].ID < props[j].ID })
	vsched.Main(props)
}
