exec(open("/tmp/seeds/common.py").read())
id="go-enum-lazy-names"; property="C33"
needs="two goroutines that ask enum values of one type for their names for the first time at the same moment"
breaks="the table of an enum's names is built on the first use, without a lock: concurrent first uses race, and one of them can find it half filled"
edits=[("pkg/golang/enum.go",'''	dst.Code("var " + build.StringToFirstLower(typ.Name.Name) + "Map = map[" + name + "]string{\\n")
	for _, item := range typ.Items {
		enumItem := build.StringToHumpName(item.Name.Name)
		dst.Code("\\t" + name + enumItem + ": " + spaceText[:maxLen-len(enumItem)] + "\\"" + build.StringToHumpName(item.Name.Name) + "\\",\\n")
	}
	dst.Code("}\\n\\n")

	dst.Code("func (e " + name + ") ToName() string {\\n")
''','''	dst.Code("var " + build.StringToFirstLower(typ.Name.Name) + "Map map[" + name + "]string\\n\\n")

	dst.Code("func (e " + name + ") ToName() string {\\n")
	dst.Code("\\tif " + build.StringToFirstLower(typ.Name.Name) + "Map == nil {\\n")
	dst.Code("\\t\\t" + build.StringToFirstLower(typ.Name.Name) + "Map = map[" + name + "]string{}\\n")
	for _, item := range typ.Items {
		enumItem := build.StringToHumpName(item.Name.Name)
		dst.Code("\\t\\t" + build.StringToFirstLower(typ.Name.Name) + "Map[" + name + enumItem + "] = \\"" + enumItem + "\\"\\n")
	}
	dst.Code("\\t}\\n")
''')]
files=gogen({"a.hbuf":'''package go = "a"

enum Kind {
	none = 0
	one = 1
	two = 2
}
'''},'''package main

import (
	"gen/p/a"
	"os"
	"sync"
)

func main() {
	var wg sync.WaitGroup
	start := make(chan bool)
	bad := make([]bool, 16)
	for i := range bad {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < 1000; k++ {
				if a.KindTwo.ToName() != "Two" {
					bad[i] = true
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, b := range bad {
		if b {
			os.Exit(1)
		}
	}
}
''')
files["demo.sh"]=files["demo.sh"].replace("timeout 200 go run .","timeout 250 go run -race .")
