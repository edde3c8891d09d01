package main

// override says where selectors of a standard package go.
type override struct {
	to   string          // replacement package
	all  bool            // every name
	use  map[string]bool // only these names
	deny map[string]bool // these cannot be simulated
	// denyFuncs denies every function that is not in use or ok
	denyFuncs bool
	ok        map[string]bool
}

func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

var overrides = map[string]*override{
	"sync":        {to: "simrt/ssync", all: true},
	"sync/atomic": {to: "simrt/satomic", all: true},
	"time": {to: "simrt/stime", use: set("Now", "Since", "Until", "Sleep", "After", "AfterFunc", "NewTimer",
		"NewTicker", "Tick", "Timer", "Ticker")},
	"math/rand": {to: "simrt/srand", use: set("Seed", "Float64", "Float32", "Int", "Int31", "Int31n", "Int63", "Int63n",
		"Intn", "Uint32", "Uint64", "Perm", "Shuffle", "NormFloat64", "ExpFloat64", "Read", "NewSource", "New", "Rand")},
	"math/rand/v2": {to: "simrt/srandv2", use: set("Float64", "Float32", "Int", "IntN", "Int32", "Int32N", "Int64",
		"Int64N", "Uint32", "Uint64", "UintN", "Uint32N", "Uint64N", "Perm", "Shuffle", "NormFloat64", "ExpFloat64", "N", "New", "Rand")},
	"crypto/rand": {to: "simrt/scrand", use: set("Reader", "Read"), denyFuncs: true},
	"os": {to: "simrt/sos", use: set("Args", "File", "Stdin", "Stdout", "Stderr", "Exit", "Open", "Create", "OpenFile",
		"CreateTemp", "MkdirTemp", "Mkdir", "MkdirAll", "Remove", "RemoveAll", "Rename", "Link", "Stat", "Lstat",
		"SameFile", "ReadFile", "WriteFile", "ReadDir", "Chmod", "Chtimes", "Chown", "Truncate", "Getwd", "Chdir",
		"TempDir", "Getpid", "Readlink", "Symlink", "Hostname", "Getppid"),
		denyFuncs: true, ok: set("Getenv", "LookupEnv", "Environ", "Expand", "ExpandEnv", "IsExist", "IsNotExist",
			"IsPermission", "IsTimeout", "IsPathSeparator", "NewSyscallError", "Getuid", "Geteuid", "Getgid", "Getegid",
			"Getpagesize", "Setenv", "Unsetenv")},
	"path/filepath": {to: "simrt/sos", use: set("Abs", "EvalSymlinks", "Glob", "Walk", "WalkDir")},
	"io/ioutil":     {to: "simrt/sioutil", use: set("ReadFile", "WriteFile", "TempFile", "TempDir", "ReadDir")},
	"fmt":           {to: "simrt/sfmt", use: set("Print", "Printf", "Println"), deny: set("Scan", "Scanf", "Scanln")},
	"log":           {to: "simrt/slog", use: set("Print", "Printf", "Println", "Fatal", "Fatalf", "Fatalln")},
	"runtime":       {to: "simrt/sruntime", use: set("NumCPU", "GOMAXPROCS", "Gosched", "NumGoroutine", "SetFinalizer", "GC")},
	"context":       {to: "simrt/sctx", use: set("WithDeadline", "WithTimeout", "AfterFunc"), deny: set("WithDeadlineCause", "WithTimeoutCause")},
	"io":            {to: "simrt/sio", use: set("Pipe", "PipeReader", "PipeWriter")},
	"runtime/pprof": {to: "simrt/spprof", all: true},
	"os/signal":     {to: "simrt/ssignal", all: true},
	"os/exec":       {denyFuncs: true},
	"os/user":       {denyFuncs: true},
	"syscall":       {denyFuncs: true, ok: set("Getpid")},
	"net":           {denyFuncs: true},
	"net/http":      {denyFuncs: true},
	"plugin":        {denyFuncs: true},
}

var pkgName = map[string]string{
	"simrt/ssync": "sync", "simrt/satomic": "atomic",
}
