// Package glog stands in for github.com/golang/glog: Fatal ends the simulated
// process, everything else is discarded.
package glog

import (
	"fmt"

	"MODULE/zsim/rt"
)

type Level int32
type Verbose bool

func V(Level) Verbose                           { return false }
func (Verbose) Info(...interface{})             {}
func (Verbose) Infof(string, ...interface{})    {}
func (Verbose) Infoln(...interface{})           {}
func Info(...interface{})                       {}
func Infof(string, ...interface{})              {}
func Infoln(...interface{})                     {}
func Warning(...interface{})                    {}
func Warningf(string, ...interface{})           {}
func Warningln(...interface{})                  {}
func Error(...interface{})                      {}
func Errorf(string, ...interface{})             {}
func Errorln(...interface{})                    {}
func Flush()                                    {}
func Fatal(a ...interface{})                    { rt.ProcessExit(fmt.Sprint(a...)) }
func Fatalf(f string, a ...interface{})         { rt.ProcessExit(fmt.Sprintf(f, a...)) }
func Fatalln(a ...interface{})                  { rt.ProcessExit(fmt.Sprintln(a...)) }
func Exit(a ...interface{})                     { rt.ProcessExit(fmt.Sprint(a...)) }
func Exitf(f string, a ...interface{})          { rt.ProcessExit(fmt.Sprintf(f, a...)) }
