// Package zz_vlog models the standard logger: messages go nowhere but are counted.
package zz_vlog

import v "github.com/xtfly/log4g/internal/zz_vrt"

// Count is the number of messages.
var Count int

func note() {
	v.Enter()
	Count++
	v.Leave()
}

func Println(a ...interface{})               { note() }
func Printf(format string, a ...interface{}) { note() }
func Print(a ...interface{})                 { note() }
func Fatal(a ...interface{})                 { panic("log.Fatal") }
func Fatalf(f string, a ...interface{})      { panic("log.Fatal") }
func Fatalln(a ...interface{})               { panic("log.Fatal") }
