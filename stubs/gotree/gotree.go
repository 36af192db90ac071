// Package gotree is a stand-in for github.com/DiSiqueira/GoTree (not
// available offline); only the API used by skycoin/cxo.
package gotree

import "strings"

type GTStructure struct {
	Name  string
	Items []*GTStructure
}

func StringTree(object *GTStructure) (result string) {
	var b strings.Builder
	b.WriteString(object.Name + "\n")
	rec(&b, object.Items, "")
	return b.String()
}

func rec(b *strings.Builder, items []*GTStructure, indent string) {
	for i, it := range items {
		pre, next := "├── ", "│   "
		if i == len(items)-1 {
			pre, next = "└── ", "    "
		}
		b.WriteString(indent + pre + it.Name + "\n")
		rec(b, it.Items, indent+next)
	}
}
