package log

import (
	"fmt"
	"os"

	"go.dedis.ch/onet/v3/modelrt"
)

func Lvl1(args ...interface{})             {}
func Lvl2(args ...interface{})             {}
func Lvl3(args ...interface{})             {}
func Lvl4(args ...interface{})             {}
func Lvl5(args ...interface{})             {}
func LLvl1(args ...interface{})            {}
func LLvl2(args ...interface{})            {}
func LLvl3(args ...interface{})            {}
func LLvl4(args ...interface{})            {}
func Lvlf1(f string, args ...interface{})  {}
func Lvlf2(f string, args ...interface{})  {}
func Lvlf3(f string, args ...interface{})  {}
func Info(args ...interface{})             {}
func Warn(args ...interface{})             {}
func Error(args ...interface{})            { fmt.Fprintln(os.Stderr, args...) }
func Errorf(f string, args ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", args...) }
func Print(args ...interface{})            {}
func Fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	modelrt.Exit(1)
}
func Fatalf(f string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", args...)
	modelrt.Exit(1)
}
func ErrFatal(err error, args ...interface{}) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err.Error())
		modelrt.Exit(1)
	}
}
func Panic(args ...interface{})        { panic(fmt.Sprint(args...)) }
func SetDebugVisible(lvl int)          {}
func DebugVisible() int                { return 0 }
func SetUseColors(b bool)              {}
func MainTest(m interface{}, l ...int) {}
func AfterTest(t interface{})          {}
