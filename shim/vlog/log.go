// Package vlog replaces log: Fatal ends the execution, not the checker.
package vlog

import (
	"fmt"
	"io"
	"vshim/vos"
	"vshim/vsched"
)

// Logger writes its lines one after another.
type Logger struct {
	w      io.Writer
	prefix string
	busy   bool
}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w: w, prefix: prefix} }

func (l *Logger) out(s string) error {
	if l.busy {
		vsched.Block("logger", func() bool { return !l.busy })
	}
	l.busy = true
	defer func() { l.busy = false }()
	if s == "" || s[len(s)-1] != '\n' {
		s += "\n"
	}
	_, err := l.w.Write([]byte(l.prefix + s))
	return err
}

func (l *Logger) Print(v ...interface{})            { l.out(fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.out(fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...interface{})          { l.out(fmt.Sprintln(v...)) }
func (l *Logger) Panic(v ...interface{})            { l.Print(v...); panic(fmt.Sprint(v...)) }
func (l *Logger) Panicf(f string, v ...interface{}) { l.Printf(f, v...); panic(fmt.Sprintf(f, v...)) }
func (l *Logger) Panicln(v ...interface{})          { l.Println(v...); panic(fmt.Sprintln(v...)) }
func (l *Logger) Output(d int, s string) error      { return l.out(s) }
func (l *Logger) Flags() int                        { return 0 }
func (l *Logger) SetFlags(int)                      {}
func (l *Logger) Prefix() string                    { return l.prefix }
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) SetOutput(w io.Writer)             { l.w = w }
func (l *Logger) Writer() io.Writer                 { return l.w }

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return vos.Stderr.Write(b) }

var std = New(stderr{}, "", 0)

func init() { vsched.OnReset(func() { std = New(stderr{}, "", 0) }) }

func Default() *Logger { return std }

func die(s string) {
	vsched.Finish(vsched.Exit, "log.Fatal called: "+s+" "+vsched.StackHere())
}

func (l *Logger) Fatal(v ...interface{})            { l.Print(v...); die(fmt.Sprint(v...)) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Printf(f, v...); die(fmt.Sprintf(f, v...)) }
func (l *Logger) Fatalln(v ...interface{})          { l.Println(v...); die(fmt.Sprint(v...)) }

func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Print(v ...interface{})            { std.Print(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
func Flags() int                        { return 0 }
func SetFlags(int)                      {}
func Prefix() string                    { return std.Prefix() }
func SetPrefix(p string)                { std.SetPrefix(p) }
func SetOutput(w io.Writer)             {}
func Writer() io.Writer                 { return stderr{} }
func Output(d int, s string) error      { std.Print(s); return nil }
