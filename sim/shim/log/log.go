// Package log replaces log in instrumented code.
package log

import (
	"fmt"
	"io"
	"log"

	"verif/sim/shim/os"
)

// The standard flags.
const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Logger is log.Logger without time.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{w: os.Stderr, flags: LstdFlags}

// New is log.New.
func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{w, prefix, flags} }

// Default is log.Default.
func Default() *Logger { return std }

func (l *Logger) out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	io.WriteString(l.w, l.prefix+s)
}

func (l *Logger) Output(d int, s string) error { l.out(s); return nil }
func (l *Logger) SetOutput(w io.Writer)        { l.w = w }
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) SetFlags(f int)               { l.flags = f }
func (l *Logger) Flags() int                   { return l.flags }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) Writer() io.Writer            { return l.w }
func (l *Logger) Print(a ...any)               { l.out(fmt.Sprint(a...)) }
func (l *Logger) Printf(f string, a ...any)    { l.out(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...any)             { l.out(fmt.Sprintln(a...)) }
func (l *Logger) Fatal(a ...any)               { l.out(fmt.Sprint(a...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, a ...any)    { l.out(fmt.Sprintf(f, a...)); os.Exit(1) }
func (l *Logger) Fatalln(a ...any)             { l.out(fmt.Sprintln(a...)); os.Exit(1) }
func (l *Logger) Panic(a ...any)               { s := fmt.Sprint(a...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); l.out(s); panic(s) }
func (l *Logger) Panicln(a ...any)             { s := fmt.Sprintln(a...); l.out(s); panic(s) }
func SetOutput(w io.Writer)                    { std.SetOutput(w) }
func SetPrefix(p string)                       { std.SetPrefix(p) }
func SetFlags(f int)                           { std.SetFlags(f) }
func Flags() int                               { return std.flags }
func Prefix() string                           { return std.prefix }
func Writer() io.Writer                        { return std.w }
func Print(a ...any)                           { std.Print(a...) }
func Printf(f string, a ...any)                { std.Printf(f, a...) }
func Println(a ...any)                         { std.Println(a...) }
func Fatal(a ...any)                           { std.Fatal(a...) }
func Fatalf(f string, a ...any)                { std.Fatalf(f, a...) }
func Fatalln(a ...any)                         { std.Fatalln(a...) }
func Panic(a ...any)                           { std.Panic(a...) }
func Panicf(f string, a ...any)                { std.Panicf(f, a...) }
func Panicln(a ...any)                         { std.Panicln(a...) }
