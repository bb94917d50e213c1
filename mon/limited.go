package main

import (
	"os"
	"os/signal"
	"strconv"
	"syscall"
)

// limited replaces this process by a command that can write files of so many
// bytes only.
func limited(args []string) int {
	n, err := strconv.ParseUint(args[0], 10, 64)
	if err != nil {
		return exitError
	}
	signal.Ignore(syscall.SIGXFSZ) // writing fails with EFBIG instead
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		return exitError
	}
	syscall.Exec(args[1], args[1:], os.Environ())
	return exitError
}
